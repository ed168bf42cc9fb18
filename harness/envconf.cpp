// P12: random property sources and type specifications (files with includes, texts, declared in code)
// made into injectors, compared with a reference of cascading, defaults and conversions.
#include "unicode.hpp"
#include <cfenv>
#include <fstream>
#include <map>
#include <optional>
#include <set>
#include <sys/stat.h>
#include <Balau/Type/ToString.hpp>
#include <Balau/Application/EnvironmentConfiguration.hpp>
#include <Balau/Application/ApplicationConfiguration.hpp>
#include <Balau/Application/Injector.hpp>

using namespace Balau;
using std::string;
using std::vector;

// ------------------------------------------------------------------ property types

struct Point { long x = 0, y = 0; };
struct Shape { virtual ~Shape() = default; virtual string text() const = 0; virtual std::unique_ptr<Shape> copy() const = 0; };
static std::atomic<long> shapes { 0 };
struct Circle : Shape { string t; explicit Circle(string s) : t(std::move(s)) { ++shapes; } Circle(const Circle & c) : t(c.t) { ++shapes; } ~Circle() override { --shapes; } string text() const override { return "circle " + t; } std::unique_ptr<Shape> copy() const override { return std::unique_ptr<Shape>(new Circle(*this)); } };
struct Square : Shape { long pad[4] = {}; string t; explicit Square(string s) : t(std::move(s)) { ++shapes; } Square(const Square & c) : t(c.t) { ++shapes; } ~Square() override { --shapes; } string text() const override { return "square " + t; } std::unique_ptr<Shape> copy() const override { return std::unique_ptr<Shape>(new Square(*this)); } };

static bool isPoint(std::string_view v, Point & p) {
	const string s(v);
	char end = 0;
	return sscanf(s.c_str(), "%ld/%ld%c", &p.x, &p.y, &end) == 2;
}
static void fromString(Point & p, std::string_view v) { if (!isPoint(v, p)) ThrowBalauException(Exception::ConversionException, "not a point"); }
static std::unique_ptr<Shape> shapeOf(std::string_view v) {
	if (v.substr(0, 7) == "circle ") return std::unique_ptr<Shape>(new Circle(string(v.substr(7))));
	if (v.substr(0, 7) == "square ") return std::unique_ptr<Shape>(new Square(string(v.substr(7))));
	return nullptr;
}
static void fromString(std::unique_ptr<Shape> & d, std::string_view v) { auto s = shapeOf(v); if (!s) ThrowBalauException(Exception::ConversionException, "not a shape"); d = std::move(s); }

enum { BYTE, SHORT, INT, LONG, FLOAT, DOUBLE, STRING, CHAR, BOOL, URI, UBYTE, USHORT, UINT, ULONG, POINT, SHAPE, NFILE, CLONG = NFILE, U32, NTYPE };
static const char * const typeText[] = { "byte", "short", "int", "long", "float", "double", "string", "char", "boolean", "uri", "unsigned byte", "unsigned short", "unsigned int", "unsigned long", "point", "shape", "C long", "u32string" };
template <typename T, bool U = false> struct Tag { using Type = T; static constexpr bool unique = U; };
template <typename F> static auto withType(int t, F f) {
	switch (t) {
		case BYTE: return f(Tag<signed char>()); case SHORT: return f(Tag<short>()); case INT: return f(Tag<int>()); case LONG: return f(Tag<long long>());
		case FLOAT: return f(Tag<float>()); case DOUBLE: return f(Tag<double>()); case STRING: return f(Tag<string>()); case CHAR: return f(Tag<char>());
		case BOOL: return f(Tag<bool>()); case URI: return f(Tag<Resource::Uri, true>()); case UBYTE: return f(Tag<unsigned char>()); case USHORT: return f(Tag<unsigned short>());
		case UINT: return f(Tag<unsigned int>()); case ULONG: return f(Tag<unsigned long long>()); case POINT: return f(Tag<Point>()); case SHAPE: return f(Tag<Shape, true>());
		case CLONG: return f(Tag<long>()); default: return f(Tag<std::u32string>());
	}
}
static bool isUnique(int t) { return t == URI || t == SHAPE; }

// A value as a text that is the same exactly for the same value.
template <typename T> static string reprN(const T & v) { return "n" + std::to_string(v); }
static string repr(signed char v) { return reprN((int) v); }
static string repr(short v) { return reprN(v); }
static string repr(int v) { return reprN(v); }
static string repr(long v) { return reprN(v); }
static string repr(long long v) { return reprN(v); }
static string repr(unsigned char v) { return reprN((int) v); }
static string repr(unsigned short v) { return reprN(v); }
static string repr(unsigned int v) { return reprN(v); }
static string repr(unsigned long long v) { return reprN(v); }
static string repr(float v) { char b[64]; snprintf(b, sizeof b, "f%a", (double) v); return b; }
static string repr(double v) { char b[64]; snprintf(b, sizeof b, "d%a", v); return b; }
static string repr(const string & v) { return "s" + v; }
static string repr(char v) { return "c" + std::to_string((int) (unsigned char) v); }
static string repr(bool v) { return v ? "true" : "false"; }
static string repr(const Point & p) { return "p" + std::to_string(p.x) + "," + std::to_string(p.y); }
static string repr(const std::u32string & v) { string s = "u"; for (char32_t c : v) uni::put(s, (uint32_t) c); return s; }
static string repr(const Resource::Uri & u) { return string("uri ") + (dynamic_cast<const Resource::File *>(&u) ? "file " : dynamic_cast<const Resource::Https *>(&u) ? "https " : dynamic_cast<const Resource::Http *>(&u) ? "http " : "? ") + u.toRawString(); }
static string repr(const Shape & s) { return s.text(); }

// The reference conversions.
static std::optional<string> integer(const string & t, __int128 lo, __int128 hi) {
	size_t p = 0;
	bool neg = false;
	if (p < t.size() && (t[p] == '-' || t[p] == '+')) neg = t[p++] == '-';
	if (p == t.size() || t.size() > 30) return {};
	__int128 v = 0;
	for (; p < t.size(); ++p) { if (t[p] < '0' || t[p] > '9') return {}; v = v * 10 + (t[p] - '0'); }
	if (neg) v = -v;
	if (v < lo || v > hi) return {};
	if (v < 0) return "n-" + std::to_string((unsigned long long) -v);
	return "n" + std::to_string((unsigned long long) v);
}
static std::optional<string> convert(int t, const string & s) {
	switch (t) {
		case BYTE: return integer(s, -128, 127); case SHORT: return integer(s, -32768, 32767); case INT: return integer(s, INT32_MIN, INT32_MAX);
		case LONG: case CLONG: return integer(s, INT64_MIN, INT64_MAX); case UBYTE: return integer(s, 0, 255); case USHORT: return integer(s, 0, 65535);
		case UINT: return integer(s, 0, UINT32_MAX); case ULONG: return integer(s, 0, UINT64_MAX);
		case FLOAT: { if (s.empty()) return {}; char * e; float f = strtof(s.c_str(), &e); if (*e || std::isinf(f)) return {}; return repr(f); }
		case DOUBLE: { if (s.empty()) return {}; char * e; double f = strtod(s.c_str(), &e); if (*e || std::isinf(f)) return {}; return repr(f); }
		case STRING: return "s" + s;
		case U32: return "u" + s;
		case CHAR: { // one code point
			if (s.size() == 1 && (unsigned char) s[0] < 128) return repr(s[0]);
			if (s.size() == 2 && ((unsigned char) s[0] & 0xFE) == 0xC2) return repr((char) (((s[0] & 3) << 6) | (s[1] & 0x3F)));
			return {};
		}
		case BOOL: { string l; for (char c : s) l += (char) tolower(c); if (l == "true" || l == "false") return l; return {}; }
		case URI: if (s.substr(0, 8) == "file:///") return "uri file " + s.substr(7); if (s.substr(0, 5) == "file:") return "uri file " + s.substr(5); if (s.substr(0, 5) == "http:") return "uri http " + s; if (s.substr(0, 6) == "https:") return "uri https " + s; return "uri file " + s;
		case POINT: { Point p; if (isPoint(s, p)) return repr(p); return {}; }
		case SHAPE: { auto p = shapeOf(s); if (p) return p->text(); return {}; }
	}
	return {};
}
static string valueText(vf::Rng & r, int t, bool good) {
	static const vector<string> ints = { "0", "+7", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649",
		"4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "007", "-1", "12x", "", "-", "0x10", "1.5", "--1", "1 2", "99999999999999999999999" };
	for (int tries = 0; ; ++tries) {
		string s;
		switch (t) {
			case FLOAT: case DOUBLE: s = r.chance(1, 2) ? r.of<const char *>({ "1.5", "-0", "1e10", "3.4e38", "1e39", "-1e39", "1e400", "abc", "1.5x", "", "0x1p-3", ".5", "5.", "1e308", "1,5", "-2.25e-3" }) : std::to_string(r.range(-100000, 100000)) + "." + std::to_string(r.below(1000)); break;
			case STRING: case U32: {
				if (r.chance(1, 6)) s = r.of<const char *>({ "int = 3", "=", "a=b", "= =x=", "{", "}", "{x}", "@file", "\\", "C:\\dir\\new", "# not a comment", "a:b", "!", "file:x" });
				else for (size_t n = r.below(9); n-- > 0;) uni::put(s, r.of<uint32_t>({ 'a', 'b', 'Z', '0', '9', '.', '-', '_', ' ', '\t', '/', '\\', '{', '}', '@', '=', ':', '#', '!', '"', 0xE9, 0x20AC, 0x1F600 }));
				break;
			}
			case CHAR: s = r.of<const char *>({ "a", "Z", "=", "\\", "{", "#", " ", "~", "\xc3\xa9", "\xc3\xbf", "\xc2\xa3", "\xc4\x80", "\xe2\x82\xac", "" }); break;
			case BOOL: s = r.of<const char *>({ "true", "false", "TRUE", "False", "tRuE", "1", "0", "yes", "", "truee", "fals" }); break;
			case URI: s = r.of<const char *>({ "file:doc", "file:/a/b/c.txt", "file:a b", "http://h.x/a?b=c", "https://borasoftware.com", "https://h:8443/x#y", "nosuch:thing", "file:///abs/x", "plain", "file:x/../y" }); break;
			case POINT: s = r.chance(2, 3) ? std::to_string(r.range(-50, 50)) + "/" + std::to_string(r.range(-50, 50)) : r.of<const char *>({ "1/2x", "", "1", "a/b", "1/" }); break;
			case SHAPE: s = r.of<const char *>({ "circle 1", "circle ", "square x", "square 33", "circle a=b", "triangle 3", "", "circle" }); break;
			default: s = r.chance(1, 2) ? r.pick(ints) : std::to_string(r.range(-300, 70000));
		}
		const bool ok = (bool) convert(t, s);
		if (ok == good || tries > 60) return s;
		if (t == STRING || t == U32 || t == URI) return s;
	}
}

// ------------------------------------------------------------------ documents

struct Doc;
struct Item { enum K { Value, Composite, Include, Other } k = Value; string name, value; vector<Item> kids; std::shared_ptr<Doc> doc; string ref; };
struct Doc { string dir, file; vector<Item> items; string full() const { return dir.empty() ? file : dir + "/" + file; } };

struct Maker {
	vf::Rng & r;
	string base;
	int n = 0;
	bool absolute; // only absolute references
	vector<std::shared_ptr<Doc>> docs;
	size_t escapes = 0, continuations = 0;

	string enc(const string & v, bool isName) {
		string o;
		bool first = true;
		const bool playful = r.chance(1, 4);
		for (size_t m = 0; m < v.size(); ++m) {
			const unsigned char c = (unsigned char) v[m];
			bool esc = c == '\\' || c == '{' || c == '}' || c == '@';
			if ((first || isName) && strchr(" \t:=#!", c)) esc = true;
			if (!esc && playful && c < 128 && r.chance(1, 8)) esc = true;
			if (playful && !first && c != ' ' && c != '\t' && c < 128 && r.chance(1, 8)) { o += r.of<const char *>({ "\\\n", "\\\n    ", "\\\n\t" }); ++continuations; }
			if (esc) { o += '\\'; ++escapes; }
			o += (char) c;
			first = false;
		}
		return o;
	}
	void render(const vector<Item> & items, string & o, const string & ind) {
		for (const Item & i : items) {
			switch (i.k) {
				case Item::Value: o += ind + enc(i.name, true) + r.of<const char *>({ " = ", "=", " : ", ":", " ", "\t" }) + enc(i.value, false) + "\n"; break;
				case Item::Composite: o += ind + enc(i.name, true) + r.of<const char *>({ " ", "", " = ", " : " }) + "{\n"; render(i.kids, o, ind + r.of<const char *>({ "", "  ", "\t" })); o += ind + "}\n"; break;
				case Item::Include: o += ind + "@" + i.ref + "\n"; break;
				case Item::Other: o += r.of<const char *>({ "\n", "# comment = {\n", "  ! a : int\n", "   \n", "#\n" }); break;
			}
		}
	}
	string text(const Doc & d) { string o; render(d.items, o, ""); return o; }
	void write(const Doc & d) {
		string path = base;
		for (size_t p = 0; p <= d.dir.size();) { size_t q = d.dir.find('/', p); if (q == string::npos) q = d.dir.size(); path = base + "/" + d.dir.substr(0, q); mkdir(path.c_str(), 0777); p = q + 1; }
		std::ofstream f(base + "/" + d.full(), std::ios::binary);
		f << text(d);
	}
	std::shared_ptr<Doc> makeDoc(vector<Item> items, const char * ext) {
		auto d = std::make_shared<Doc>();
		d->dir = r.of<const char *>({ "", "x", "x/y", "z", "x/deep er" });
		d->file = "f" + std::to_string(n++) + ext;
		d->items = std::move(items);
		// Move some of the items to included documents.
		includes(d->items, *d, ext, 0);
		docs.push_back(d);
		return d;
	}
	void includes(vector<Item> & items, const Doc & owner, const char * ext, int depth) {
		for (Item & i : items) if (i.k == Item::Composite) includes(i.kids, owner, ext, depth);
		if (depth < 3 && !items.empty() && r.chance(1, 7)) {
			const size_t a = r.below(items.size() + 1), b = a + r.below(items.size() - a + 1);
			auto d = std::make_shared<Doc>();
			d->dir = r.of<const char *>({ "", "x", "x/y", "z", "x/deep er", "z/q" });
			d->file = "i" + std::to_string(n++) + ext;
			d->items.assign(items.begin() + (long) a, items.begin() + (long) b);
			// The items that moved may hold includes relative to the old owner : redo them.
			refer(d->items, *d);
			includes(d->items, *d, ext, depth + 1);
			items.erase(items.begin() + (long) a, items.begin() + (long) b);
			Item inc; inc.k = Item::Include; inc.doc = d; inc.ref = reference(owner, *d);
			items.insert(items.begin() + (long) a, inc);
			docs.push_back(d);
		}
	}
	void refer(vector<Item> & items, const Doc & owner) {
		for (Item & i : items) { if (i.k == Item::Include) i.ref = reference(owner, *i.doc); if (i.k == Item::Composite) refer(i.kids, owner); }
	}
	string reference(const Doc & from, const Doc & to) {
		const string full = base + "/" + to.full();
		if (absolute || r.chance(1, 5)) return r.chance(1, 2) ? "file://" + full : absolute ? "file://" + full : full;
		string rel = boost::filesystem::path("/" + to.full()).lexically_relative(boost::filesystem::path("/" + from.dir)).string();
		return (r.chance(1, 2) ? "file:" : "") + rel + (r.chance(1, 6) ? " " : "");
	}
};

static const vector<string> NAMES = { "a", "b", "c", "d.e", "http.port", "x y", "k#1", "\xc3\xbc", "p{q}", "=", "c:\\" };

// ------------------------------------------------------------------ reference

struct Spec { string name; bool composite = false, unknown = false; int type = STRING; bool hasDef = false; string def; vector<Spec> kids; bool badDefault() const { return hasDef && !convert(type, def); } };
struct Level { std::map<std::pair<string, int>, string> values; std::map<string, std::shared_ptr<Level>> comps; };
struct Refused { string why; };
struct Prop { bool composite = false; string name, value; vector<Prop> kids; };

static void mergeProps(vector<Prop> & dst, const vector<Item> & items) {
	for (const Item & i : items) {
		if (i.k == Item::Include) { mergeProps(dst, i.doc->items); continue; }
		if (i.k == Item::Other) continue;
		auto it = std::find_if(dst.begin(), dst.end(), [&] (const Prop & p) { return p.name == i.name && p.composite == (i.k == Item::Composite); });
		if (it == dst.end()) { dst.push_back({ i.k == Item::Composite, i.name, "", {} }); it = dst.end() - 1; }
		if (i.k == Item::Value) it->value = i.value; else mergeProps(it->kids, i.kids);
	}
}
static void cascade(vector<Spec> & dst, const vector<Spec> & src, bool root, bool & replacedComposite) {
	for (const Spec & s : src) {
		if (s.composite && s.kids.empty()) continue;
		auto it = std::find_if(dst.begin(), dst.end(), [&] (const Spec & d) { return d.name == s.name; });
		if (!s.composite) {
			if (it != dst.end() && it->composite) { if (!root) throw Refused { "incompatible specifications" }; replacedComposite = true; }
			if (it != dst.end()) *it = s; else dst.push_back(s);
		} else {
			if (it == dst.end()) { Spec c; c.name = s.name; c.composite = true; dst.push_back(c); it = dst.end() - 1; }
			else if (!it->composite) throw Refused { "incompatible specifications" };
			cascade(it->kids, s.kids, false, replacedComposite);
		}
	}
}
static void build(const vector<Prop> & props, const vector<Spec> & specs, Level & l, bool & refuses) {
	std::set<string> created;
	for (const Prop & p : props) {
		auto s = std::find_if(specs.begin(), specs.end(), [&] (const Spec & x) { return x.name == p.name; });
		if (p.composite) {
			auto & c = l.comps[p.name];
			if (!c) c = std::make_shared<Level>();
			build(p.kids, s != specs.end() && s->composite ? s->kids : vector<Spec>(), *c, refuses);
		} else if (s == specs.end()) l.values[{ p.name, STRING }] = "s" + p.value;
		else if (s->composite) refuses = true;
		else {
			auto v = convert(s->type, p.value);
			if (!v) { refuses = true; continue; }
			l.values[{ p.name, s->type }] = *v;
			created.insert(p.name);
		}
	}
	for (const Spec & s : specs) {
		if (!s.composite) { if (s.hasDef && !created.count(s.name) && !s.badDefault()) l.values[{ s.name, s.type }] = *convert(s.type, s.def); continue; }
		if (l.comps.count(s.name)) continue; // done with its properties
		Level c;
		build({}, s.kids, c, refuses);
		if (!c.values.empty() || !c.comps.empty()) l.comps[s.name] = std::make_shared<Level>(c);
	}
}

// ------------------------------------------------------------------ generators

static vector<Item> genProps(vf::Rng & r, const vector<Spec> & specs, int depth, bool bad) {
	vector<Item> v;
	for (size_t n = r.below(depth ? 5 : 8); n-- > 0;) {
		Item i;
		const Spec * s = nullptr;
		if (!specs.empty() && r.chance(3, 4)) { s = &r.pick(specs); i.name = s->name; }
		else { i.name = r.pick(NAMES); for (const Spec & x : specs) if (x.name == i.name) s = &x; }
		if (r.chance(1, 10)) { i.k = Item::Other; v.push_back(i); continue; }
		bool comp = s ? s->composite : depth < 3 && r.chance(1, 4);
		if (s && !s->composite && r.chance(1, 14)) comp = true;        // a value specification for a composite property
		if (s && s->composite && bad && r.chance(1, 8)) comp = false;
		if (comp) { i.k = Item::Composite; if (depth < 4) i.kids = genProps(r, s ? s->kids : vector<Spec>(), depth + 1, bad); }
		else i.value = valueText(r, s && !s->composite ? s->type : STRING, !(bad && r.chance(1, 6)));
		v.push_back(i);
	}
	return v;
}
static vector<Spec> genSpecs(vf::Rng & r, const vector<Spec> & like, int depth, bool inCode, bool bad) {
	vector<Spec> v;
	for (size_t n = (inCode && depth ? 1 : 0) + r.below(depth ? 4 : 6); n-- > 0;) {
		Spec s;
		s.name = r.pick(NAMES);
		const Spec * l = nullptr;
		for (const Spec & x : like) if (x.name == s.name) l = &x;
		for (const Spec & x : v) if (x.name == s.name && !l) l = &x;
		if (l && !bad) s.composite = l->composite; else s.composite = depth < 3 && r.chance(1, 3);
		if (s.composite) { s.kids = genSpecs(r, l ? l->kids : vector<Spec>(), depth + 1, inCode, bad); if (inCode && s.kids.size() > 5) s.kids.resize(5); }
		else {
			s.type = (int) r.below(inCode ? NTYPE : NFILE);
			if (bad && !inCode && r.chance(1, 25)) s.unknown = true;
			if (r.chance(2, 5)) {
				s.def = valueText(r, s.type, inCode || !(bad && r.chance(1, 10)));
				s.hasDef = inCode || (!s.def.empty() && s.def[0] != ' ' && s.def[0] != '\t');
				if (inCode && !convert(s.type, s.def)) s.hasDef = false;
			}
		}
		v.push_back(s);
	}
	return v;
}
static vector<Item> specItems(vf::Rng & r, const vector<Spec> & specs) {
	vector<Item> v;
	for (const Spec & s : specs) {
		Item i;
		i.name = s.name;
		if (s.composite) { i.k = Item::Composite; i.kids = specItems(r, s.kids); }
		else { i.value = s.unknown ? "nosuch" : typeText[s.type]; if (s.hasDef) i.value += r.of<const char *>({ " = ", "=", "  =", " =\t" }) + s.def; }
		v.push_back(i);
		if (r.chance(1, 10)) { Item o; o.k = Item::Other; v.push_back(o); }
	}
	return v;
}
static void scan(const vector<Spec> & specs, bool & unknown, bool & badDefault) {
	for (const Spec & s : specs) { if (s.unknown) unknown = true; if (!s.composite && s.badDefault()) badDefault = true; scan(s.kids, unknown, badDefault); }
}

// ------------------------------------------------------------------ configurations

struct Env : EnvironmentConfiguration {
	vector<Spec> declared;
	template <typename ... A> explicit Env(vector<Spec> d, const A & ... a) : EnvironmentConfiguration(a ...), declared(std::move(d)) {}
	using Ptr = Impl::PropertyBindingBuilderFactoryPtr;
	Ptr declare(const Spec & s) const {
		if (s.composite) {
			vector<Ptr> k;
			for (const Spec & x : s.kids) k.push_back(declare(x));
			switch (k.size()) {
				case 1: return group(s.name, k[0]); case 2: return group(s.name, k[0], k[1]); case 3: return group(s.name, k[0], k[1], k[2]);
				case 4: return group(s.name, k[0], k[1], k[2], k[3]); default: return group(s.name, k[0], k[1], k[2], k[3], k[4]);
			}
		}
		if (s.type == SHAPE && vf::mix(1, vf::hashStr(s.name)) & 1) { // a cloner of its own
			static const UniquePropertyCloner<Shape> cloner = [] (const std::unique_ptr<const Shape> & p) { return p->copy(); };
			return s.hasDef ? unique<Shape>(s.name, cloner, shapeOf(s.def)) : unique<Shape>(s.name, cloner);
		}
		return withType(s.type, [&] (auto tag) -> Ptr {
			using T = typename decltype(tag)::Type;
			if constexpr (decltype(tag)::unique) {
				if (!s.hasDef) return unique<T>(s.name);
				std::unique_ptr<T> d;
				fromString(d, s.def);
				return unique<T>(s.name, std::move(d));
			} else {
				if (!s.hasDef) return value<T>(s.name);
				T d {};
				fromString(d, s.def);
				return value<T>(s.name, d);
			}
		});
	}
	void configure() const override { for (const Spec & s : declared) declare(s); }
};

struct Judge { string story; void bad(const char * key, const string & what) const { vf::violation(key, what + " : " + story); } };

static void compare(const EnvironmentProperties & p, const Level & l, const string & where, const Judge & j, vf::Rng & r, int depth = 0) {
	std::set<string> names;
	for (auto & v : l.values) names.insert(v.first.first);
	for (auto & c : l.comps) names.insert(c.first);
	names.insert(r.pick(NAMES));
	for (const string & name : names) {
		for (int t = 0; t < NTYPE; ++t) {
			auto it = l.values.find({ name, t });
			const bool want = it != l.values.end();
			if (!want && !r.chance(1, 3)) continue;
			withType(t, [&] (auto tag) {
				using T = typename decltype(tag)::Type;
				const string what = where + "/" + name + " as " + typeText[t];
				bool has;
				if constexpr (decltype(tag)::unique) has = p.hasUnique<T>(name); else has = p.hasValue<T>(name);
				if (has != want) j.bad("P12/has", what + (has ? " is there" : " is not there"));
				if (!want && !r.chance(1, 4)) return 0;
				string got;
				try { if constexpr (decltype(tag)::unique) got = repr(*p.getUnique<T>(name)); else got = repr(p.getValue<T>(name)); }
				catch (const Exception::NoBindingException &) { got = "none"; }
				if (got != (want ? it->second : "none")) j.bad("P12/value", what + " is " + vf::show(got) + " instead of " + vf::show(want ? it->second : "none"));
				string def;
				if constexpr (decltype(tag)::unique) { auto u = p.getUnique<T>(name, std::unique_ptr<T>()); def = u ? repr(*u) : "default"; if (def == "default") def = "none"; }
				else { T d {}; def = want ? repr(p.getValue<T>(name, d)) : repr(p.getValue<T>(name, d)) == repr(d) ? "none" : "other"; }
				if (def != (want ? it->second : "none")) j.bad("P12/value", what + " with a default is " + vf::show(def) + " instead of " + vf::show(want ? it->second : "none"));
				vf::count("values compared");
				return 0;
			});
		}
		auto c = l.comps.find(name);
		if (p.hasComposite(name) != (c != l.comps.end())) j.bad("P12/has", where + "/" + name + " composite");
		auto q = p.getCompositeOrNull(name);
		if ((bool) q != (c != l.comps.end())) j.bad("P12/composite", where + "/" + name + (q ? " is there" : " is not there"));
		bool threw = false;
		try { if (p.getComposite(name) != q) j.bad("P12/composite", where + "/" + name + " is not one object"); } catch (const Exception::NoBindingException &) { threw = true; }
		if (threw == (bool) q) j.bad("P12/composite", where + "/" + name + " getComposite");
		if (q && c != l.comps.end()) { vf::count("composites compared"); compare(*q, *c->second, where + "/" + name, j, r, depth + 1); }
	}
	// Iteration.
	if (p.empty() != (l.values.empty() && l.comps.empty())) j.bad("P12/iterate", where + " empty");
	std::map<std::pair<string, int>, string> seen;
	for (auto it = p.begin(); it != p.end(); ++it) {
		auto item = *it;
		const string name(item.getName());
		int found = 0;
		if (item.isComposite()) {
			++found;
			if (!seen.emplace(std::make_pair(name, -1), "").second) j.bad("P12/iterate", where + "/" + name + " comes twice");
			if (!l.comps.count(name)) j.bad("P12/iterate", where + "/" + name + " composite is not there");
			else if (item.getComposite() != p.getComposite(name) || item.getCompositeOrNull() != p.getComposite(name)) j.bad("P12/iterate", where + "/" + name + " is another composite");
		}
		for (int t = 0; t < NTYPE; ++t) withType(t, [&] (auto tag) {
			using T = typename decltype(tag)::Type;
			string got;
			if constexpr (decltype(tag)::unique) { if (!item.template isUnique<T>()) return 0; got = repr(*item.template getUnique<T>()); if (r.chance(1, 4)) got = repr(*item.template getUnique<T>(std::unique_ptr<T>())); }
			else { if (!item.template isValue<T>()) return 0; got = repr(item.template getValue<T>()); if (r.chance(1, 4)) got = repr(item.template getValue<T>(T {})); }
			++found;
			if (!seen.emplace(std::make_pair(name, t), got).second) j.bad("P12/iterate", where + "/" + name + " comes twice");
			auto w = l.values.find({ name, t });
			if (w == l.values.end() || w->second != got) j.bad("P12/iterate", where + "/" + name + " as " + typeText[t] + " is " + vf::show(got));
			return 0;
		});
		if (found != 1) j.bad("P12/iterate", where + "/" + name + " is of " + std::to_string(found) + " types");
	}
	if (seen.size() != l.values.size() + l.comps.size()) j.bad("P12/iterate", where + " has " + std::to_string(seen.size()) + " items");
}

static void compareRoot(const std::shared_ptr<Injector> & i, const Level & l, const Judge & j, vf::Rng & r, vector<std::pair<std::shared_ptr<EnvironmentProperties>, std::pair<string, std::shared_ptr<Level>>>> & keep) {
	std::set<string> names(NAMES.begin(), NAMES.end());
	for (const string & name : names) {
		for (int t = 0; t < NTYPE; ++t) {
			auto it = l.values.find({ name, t });
			const bool want = it != l.values.end();
			withType(t, [&] (auto tag) {
				using T = typename decltype(tag)::Type;
				const string what = "'" + name + "' as " + typeText[t];
				bool has;
				if constexpr (decltype(tag)::unique) has = i->hasBinding<std::unique_ptr<T>>(name); else has = i->hasBinding<T>(name);
				if (has != want) j.bad("P12/has", what + (has ? " is bound" : " is not bound"));
				if (!want && !r.chance(1, 20)) return 0;
				for (int k = 0; k < 2; ++k) {
					string got;
					try { if constexpr (decltype(tag)::unique) got = repr(*i->getUnique<T>(name)); else got = repr(i->getValue<T>(std::string_view(name))); }
					catch (const Exception::NoBindingException &) { got = "none"; }
					if (got != (want ? it->second : "none")) j.bad("P12/value", what + " is " + vf::show(got) + " instead of " + vf::show(want ? it->second : "none"));
				}
				vf::count("values compared");
				return 0;
			});
		}
		auto c = l.comps.find(name);
		const bool has = i->hasBinding<std::shared_ptr<EnvironmentProperties>>(name);
		if (has != (c != l.comps.end())) j.bad("P12/composite", "'" + name + "' composite" + (has ? " is bound" : " is not bound"));
		if (has && c != l.comps.end()) {
			auto p = i->getShared<EnvironmentProperties>(name);
			if (p != i->getShared<EnvironmentProperties>(name)) j.bad("P12/composite", "'" + name + "' is not one object");
			vf::count("composites compared");
			compare(*p, *c->second, name, j, r);
			keep.push_back({ p, { name, c->second } });
		}
	}
}

static string say(const vector<Spec> & specs) {
	string s;
	for (const Spec & x : specs) s += x.name + (x.composite ? " {" + say(x.kids) + "} " : string(" : ") + (x.unknown ? "nosuch" : typeText[x.type]) + (x.hasDef ? " = " + x.def : "") + "; ");
	return s;
}

template <typename F> static string outcome(F f) {
	try { f(); return ""; }
	catch (const Exception::DuplicateBindingException & e) { return string("duplicate ") + e.what(); }
	catch (const Exception::BalauException & e) { return string("refused ") + e.what(); }
	catch (const std::exception & e) { return string("other ") + e.what(); }
}

static vf::Mode cascades("cascades", [] (int64_t c, vf::Rng & r) {
	static bool once = false;
	if (!once) {
		once = true;
		EnvironmentConfiguration::registerUnsignedTypes();
		EnvironmentConfiguration::registerValueType<Point>("point");
		EnvironmentConfiguration::registerUniqueType<Shape>("shape", [] (const std::unique_ptr<const Shape> & p) { return p->copy(); });
	}
	const string base = vf::st().scratch + "/env" + std::to_string(c);
	mkdir(base.c_str(), 0777);
	const long shapesBefore = shapes;
	const bool bad = r.chance(1, 3);
	const bool asText = r.chance(1, 6);
	Maker mk { r, base, 0, asText, {}, 0, 0 };
	Judge j;

	// Specifications.
	vector<vector<Spec>> fileSpecs;
	vector<Spec> declared, like;
	for (size_t n = asText ? r.below(2) : r.below(4); n-- > 0;) { fileSpecs.push_back(genSpecs(r, like, 0, false, bad)); bool x; try { cascade(like, fileSpecs.back(), true, x); } catch (const Refused &) {} }
	if (r.chance(1, 2)) { declared = genSpecs(r, like, 0, true, bad); declared.erase(std::remove_if(declared.begin(), declared.end(), [] (const Spec & s) { return s.composite && s.kids.empty(); }), declared.end()); }

	bool unknown = false, badDefault = false, ambiguous = false, refuses = false;
	string why;
	vector<Spec> specs;
	try {
		for (auto & f : fileSpecs) { scan(f, unknown, badDefault); cascade(specs, f, true, ambiguous); }
		cascade(specs, declared, true, ambiguous);
	} catch (const Refused & x) { refuses = true; why = x.why; }
	for (auto & f : fileSpecs) scan(f, unknown, badDefault);

	// Sources.
	vector<std::shared_ptr<Doc>> sources, specDocs;
	vector<Prop> props;
	const size_t nSources = asText ? 1 : r.below(10) < 6 ? 1 : r.below(4);
	vector<vector<Item>> inlineItems;
	for (size_t n = nSources; n-- > 0;) { sources.push_back(mk.makeDoc(genProps(r, specs, 0, bad), ".hconf")); mergeProps(props, sources.back()->items); }
	for (auto & f : fileSpecs) specDocs.push_back(mk.makeDoc(specItems(r, f), ".thconf"));
	bool missing = false;
	const bool lose = bad && r.chance(1, 12);
	for (auto & d : mk.docs) {
		if (lose && !missing && r.chance(1, 3) && !(asText && (d == sources[0] || (!specDocs.empty() && d == specDocs[0])))) { missing = true; continue; }
		mk.write(*d);
	}

	Level want;
	bool missed = false;
	if (!refuses) { build(props, specs, want, missed); if (missed) { refuses = true; why = "a value that is not of its type, or a value for a composite"; } }
	if (unknown || missing) { refuses = true; why = unknown ? "an unknown type" : "a source that is missing"; }
	j.story = "sources:";
	for (auto & d : sources) j.story += " [" + mk.text(*d) + "]";
	for (auto & f : fileSpecs) j.story += " spec [" + say(f) + "]";
	j.story += " declared [" + say(declared) + "] documents " + std::to_string(mk.docs.size());
	j.story = vf::show(j.story, 3000);

	auto uriOf = [&] (const Doc & d) { return std::shared_ptr<Resource::Uri>(new Resource::File(base + "/" + d.full())); };
	auto fileOf = [&] (const Doc & d) { return Resource::File(base + "/" + d.full()); };
	vector<std::shared_ptr<Resource::Uri>> in, sp;
	vector<Resource::File> inF, spF;
	for (auto & d : sources) { in.push_back(uriOf(*d)); inF.push_back(fileOf(*d)); }
	for (auto & d : specDocs) { sp.push_back(uriOf(*d)); spF.push_back(fileOf(*d)); }

	std::unique_ptr<Env> env;
	vector<std::pair<std::shared_ptr<EnvironmentProperties>, std::pair<string, std::shared_ptr<Level>>>> keep;
	string got = outcome([&] {
		if (asText) {
			const string text = mk.text(*sources[0]);
			if (specDocs.empty()) { if (r.chance(1, 2)) env.reset(new Env(declared, text)); else env.reset(new Env(declared, Resource::StringUri(text))); }
			else {
				const string spec = mk.text(*specDocs[0]);
				if (r.chance(1, 2)) env.reset(new Env(declared, text, spec)); else env.reset(new Env(declared, Resource::StringUri(text), Resource::StringUri(spec)));
			}
			vf::count("configurations from texts");
		} else if (sources.size() == 1 && r.chance(1, 2)) {
			if (sp.empty()) { if (r.chance(1, 2)) env.reset(new Env(declared, inF[0])); else env.reset(new Env(declared, in[0])); }
			else if (sp.size() == 1) { if (r.chance(1, 2)) env.reset(new Env(declared, inF[0], spF[0])); else env.reset(new Env(declared, in[0], sp[0])); }
			else if (sp.size() == 2) { if (r.chance(1, 2)) env.reset(new Env(declared, inF[0], spF[0], spF[1])); else env.reset(new Env(declared, in[0], sp[0], sp[1])); }
			else { if (r.chance(1, 2)) env.reset(new Env(declared, inF[0], spF[0], spF[1], spF[2])); else env.reset(new Env(declared, in[0], sp[0], sp[1], sp[2])); }
		} else if (r.chance(1, 2)) { if (sp.empty()) env.reset(new Env(declared, in)); else env.reset(new Env(declared, in, sp)); }
		else { if (sp.empty()) env.reset(new Env(declared, inF)); else env.reset(new Env(declared, inF, spF)); }
		auto i = Injector::create(*env);
		if (refuses) { if (!ambiguous) j.bad("P12/accepted", "the configuration is accepted in spite of " + why); return; }
		if (badDefault || ambiguous) return; // a default that may be used or not
		compareRoot(i, want, j, r, keep);
		vf::count("injectors compared");
		// The same configuration again.
		if (r.chance(1, 2)) {
			auto i2 = Injector::create(*env);
			compareRoot(i2, want, j, r, keep);
			vf::count("configurations used again");
		}
		// Together with another configuration.
		if (r.chance(1, 3)) {
			const string name = r.pick(NAMES);
			const bool asComposite = r.chance(1, 3);
			Maker m2 { r, base, 1000, true, {}, 0, 0 };
			Item item; item.name = name;
			if (asComposite) item.k = Item::Composite; else item.value = "other";
			Doc d2; d2.items = { item };
			const bool duplicate = asComposite ? want.comps.count(name) > 0 : want.values.count({ name, STRING }) > 0;
			EnvironmentConfiguration other(m2.text(d2));
			std::shared_ptr<Injector> both;
			string o = outcome([&] { if (r.chance(1, 2)) both = Injector::create(*env, other); else both = Injector::create(other, *env); });
			if (duplicate) { if (o.substr(0, 9) != "duplicate") j.bad("P12/duplicate", "'" + name + "' of two configurations: " + (o.empty() ? "accepted" : o)); vf::count("duplicates refused"); }
			else if (!o.empty()) j.bad("P12/refused", "with another configuration: " + o);
			else {
				Level w2 = want;
				if (asComposite) w2.comps[name] = std::make_shared<Level>(); else w2.values[{ name, STRING }] = "sother";
				compareRoot(both, w2, j, r, keep);
				vf::count("configurations combined");
			}
		}
	});
	if (!got.empty()) {
		if (got.substr(0, 7) != "refused") j.bad("P12/exception", "the configuration fails with " + got);
		else if (!refuses && !badDefault && !ambiguous) j.bad("P12/refused", "the configuration fails with " + got);
		if (refuses) vf::count(missing ? "refused missing source" : unknown ? "refused unknown type" : why[0] == 'i' ? "refused incompatible specifications" : "refused values");
	}
	env.reset();
	for (auto & k : keep) compare(*k.first, *k.second.second, k.second.first, j, r); // the composites outlive the injectors
	keep.clear();
	if (shapes != shapesBefore) j.bad("P12/leak", std::to_string(shapes - shapesBefore) + " values were not destroyed");

	vf::count("configurations"); vf::count("documents", mk.docs.size()); vf::count("includes", mk.docs.size() - sources.size() - specDocs.size());
	vf::count("escapes", mk.escapes); vf::count("line continuations", mk.continuations);
	vf::distinct(vf::hashStr(j.story));
	if (c < 6) vf::sample(j.story.substr(0, 500));
	boost::filesystem::remove_all(base);
});
