//
// archive.cpp : monitors of gzip compression and zip archives (P22). Zip archives are read
// back by the library and by the small independent reader below, gzip files by zlib.
//
#include "unicode.hpp"

#include <Balau/Util/Zip.hpp>
#include <Balau/Util/Compression.hpp>
#include <Balau/Resource/ZipFile.hpp>
#include <Balau/Resource/ZipEntry.hpp>
#include <sys/stat.h>
#include <zlib.h>

using namespace Balau;
using Util::GZip;
using Util::Unzipper;
using Util::Zipper;
using vf::show;

static const std::string & scratch() {
	static const std::string d = [] { std::string s = vf::st().scratch + "/zip." + std::to_string(getpid()); mkdir(s.c_str(), 0755); return s; }();
	return d;
}
static bool present(const std::string & p) { return access(p.c_str(), F_OK) == 0; }
static std::string rawRead(const std::string & p) {
	int fd = open(p.c_str(), O_RDONLY);
	if (fd < 0) return "(cannot open)";
	std::string s;
	char b[65536];
	for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) s.append(b, (size_t) n);
	close(fd);
	return s;
}
static void rawWrite(const std::string & p, const std::string & s) {
	int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	for (size_t m = 0; m < s.size();) { ssize_t n = write(fd, s.data() + m, s.size() - m); if (n <= 0) break; m += (size_t) n; }
	close(fd);
}
static std::string differ(const std::string & got, const std::string & want) {
	size_t m = 0;
	while (m < got.size() && m < want.size() && got[m] == want[m]) ++m;
	return std::to_string(got.size()) + " bytes instead of " + std::to_string(want.size()) + ", different from byte " + std::to_string(m) + " on: "
		+ show(got.substr(m, 40)) + " instead of " + show(want.substr(m, 40));
}
static bool same(const char * key, const std::string & got, const std::string & want, const std::string & what = "") {
	return vf::check(got == want, key, std::string(key) + (what.empty() ? "" : " (" + what + ")") + ": " + differ(got, want));
}
static std::string content(vf::Rng & r) {
	size_t n = 0;
	switch (r.below(9)) {
		case 0: n = r.below(3); break;
		case 1: n = (size_t) r.range(2044, 2052); break; // the buffer of readEntryAsString
		case 2: n = (size_t) r.range(4092, 4100); break;
		case 3: n = (size_t) r.range(8188, 8196); break;
		case 4: n = (size_t) r.range(32764, 32772); break; // the window of deflate
		case 5: n = r.below(vf::st().thorough ? 400000 : 70000); break;
		default: n = r.below(300); break;
	}
	std::string s(n, 0);
	switch (r.below(5)) {
		case 0: { const char c = (char) r.below(256); for (auto & b : s) b = c; break; }
		case 1: for (auto & b : s) b = (char) r.below(256); break;
		case 2: { const size_t period = 1 + r.below(40); for (size_t m = 0; m < n; ++m) s[m] = m < period ? (char) r.below(256) : s[m - period]; break; }
		case 3: for (auto & b : s) b = (char) ("\0\n\r a"[r.below(5)]); break;
		default: for (auto & b : s) b = (char) ('a' + r.below(4)); break;
	}
	return s;
}
template <typename F> static std::string refused(F f) { // the exception's kind, or empty
	try {
		f();
		return "";
	} catch (const Exception::ZipException &) {
		return "zip";
	} catch (const Exception::CouldNotOpenException &) {
		return "open";
	} catch (const std::exception & e) {
		return std::string("other: ") + e.what();
	} catch (...) {
		return "thrown";
	}
}

// ------------------------------------------------ gzip

static std::string inflateAll(const std::string & s, int bits, bool & ok) {
	z_stream z {};
	ok = inflateInit2(&z, bits) == Z_OK;
	std::string out;
	char b[32768];
	z.next_in = (Bytef *) s.data();
	z.avail_in = (uInt) s.size();
	int rc = Z_OK;
	while (ok && rc == Z_OK) {
		z.next_out = (Bytef *) b;
		z.avail_out = sizeof b;
		rc = inflate(&z, Z_NO_FLUSH);
		out.append(b, sizeof b - z.avail_out);
		if (rc == Z_BUF_ERROR) break;
	}
	ok = rc == Z_STREAM_END && z.avail_in == 0;
	inflateEnd(&z);
	return out;
}
static std::string gzOf(const std::string & s, vf::Rng & r) { // by zlib, with varied headers
	z_stream z {};
	deflateInit2(&z, (int) r.range(0, 9), Z_DEFLATED, 16 + (int) r.range(9, 15), (int) r.range(1, 9), r.of<int>({ Z_DEFAULT_STRATEGY, Z_FILTERED, Z_HUFFMAN_ONLY, Z_RLE, Z_FIXED }));
	gz_header h {};
	char name[] = "a name", comment[] = "a comment";
	h.time = (uLong) r.below(1u << 31);
	h.os = 3;
	if (r.chance(1, 2)) h.name = (Bytef *) name;
	if (r.chance(1, 2)) h.comment = (Bytef *) comment;
	if (r.chance(1, 2)) deflateSetHeader(&z, &h);
	std::string out(deflateBound(&z, s.size()) + 200, 0);
	z.next_in = (Bytef *) s.data();
	z.avail_in = (uInt) s.size();
	z.next_out = (Bytef *) &out[0];
	z.avail_out = (uInt) out.size();
	deflate(&z, Z_FINISH);
	out.resize(out.size() - z.avail_out);
	deflateEnd(&z);
	return out;
}
// Gunzip in one of the three forms. Throws if refused.
static std::string expand(const std::string & path, int form, vf::Rng & r) {
	const Resource::File f(path);
	if (form == 0) {
		std::string s = "previous text";
		GZip::gunzip(f, s);
		return s;
	}
	if (form == 1) {
		const std::string out = scratch() + "/expanded";
		if (r.chance(1, 2)) rawWrite(out, std::string(5000, 'p'));
		GZip::gunzip(f, Resource::File(out));
		return rawRead(out);
	}
	std::unique_ptr<std::istream> in;
	GZip::gunzip(f, in);
	std::string s;
	std::vector<char> b(1 + r.below(r.chance(1, 2) ? 20 : 9000));
	if (r.chance(1, 8)) {
		for (int c; (c = in->get()) != EOF;) s += (char) c;
	} else {
		while (in->read(b.data(), (std::streamsize) b.size()), in->gcount() > 0) s.append(b.data(), (size_t) in->gcount());
	}
	if (in->bad()) throw std::runtime_error("the stream went bad");
	return s;
}
static vf::Mode gzip("gzip", [] (int64_t, vf::Rng & r) {
	const std::string in = scratch() + "/in", gz = scratch() + "/in.gz";
	std::string c = content(r);
	vf::distinct(vf::hashStr(c));
	unlink(gz.c_str());
	if (r.chance(1, 4)) rawWrite(gz, std::string(100000, 'g'));
	const Resource::File target(gz);
	std::string compressed;
	switch (r.below(5)) {
		case 0: rawWrite(in, c); GZip::gzip(Resource::File(in), target); break;
		case 1: GZip::gzip(c, target); break;
		case 2: { std::istringstream s(c); GZip::gzip(s, target); break; }
		case 3: { // the rest of a partly read stream
			std::istringstream s(c);
			const size_t skip = r.below(c.size() + 1);
			std::string first(skip, 0);
			s.read(&first[0], (std::streamsize) skip);
			GZip::gzip(s, target);
			c = c.substr(skip);
			break;
		}
		default: { // a file compressed elsewhere, perhaps of several members
			std::string s;
			if (r.chance(1, 3)) { const size_t at = r.below(c.size() + 1); s = gzOf(c.substr(0, at), r) + gzOf(c.substr(at), r); }
			else s = gzOf(c, r);
			rawWrite(gz, s);
			compressed = s;
			break;
		}
	}
	if (compressed.empty()) {
		compressed = rawRead(gz);
		bool ok = false;
		const std::string s = inflateAll(compressed, 16 + 15, ok);
		vf::check(ok, "gzip-format", "zlib does not accept the gzip file of a content of " + std::to_string(c.size()) + " bytes");
		same("gzip", s, c);
	}
	for (int form = 0; form < 3; ++form) {
		static const char * const names[3] = { "string", "file", "stream" };
		same("gunzip", expand(gz, form, r), c, names[form]);
		vf::count("gzip contents expanded");
	}
	for (int n = 3; n > 0; --n) { // damaged
		std::string s = compressed;
		std::string how;
		switch (r.below(4)) {
			case 0: s.resize(r.below(s.size())); how = "truncated to " + std::to_string(s.size()); break;
			case 1: { const size_t at = s.size() - 8 + r.below(4); s[at] = (char) (s[at] ^ (1 << r.below(8))); how = "checksum changed"; break; }
			case 2: { const size_t at = r.below(s.size()); s[at] = (char) (s[at] ^ (1 + r.below(255))); how = "byte " + std::to_string(at) + " changed"; break; }
			default: { const size_t at = r.below(s.size()); s.erase(at, 1 + r.below(4)); how = "bytes missing at " + std::to_string(at); break; }
		}
		rawWrite(gz, s);
		const int form = (int) r.below(3);
		std::string out;
		const std::string e = refused([&] () { out = expand(gz, form, r); });
		// Some bits of the header do not matter, and the trailing zeros of the last block neither: then the content is the same.
		const bool mustRefuse = how[0] == 't' ? true : how[0] == 'c';
		bool multi = false; // the end of a member is a whole file
		if (how[0] == 't') { bool ok; std::string first = inflateAll(s, 16 + 15, ok); multi = ok; }
		if (e.empty()) {
			if (multi) vf::check(c.compare(0, out.size(), out) == 0, "gunzip-damaged", "gunzip of a file " + how + ": " + differ(out, c));
			else if (mustRefuse) vf::violation("gunzip-damaged", "gunzip accepted a gzip file of " + std::to_string(compressed.size()) + " bytes, " + how + ", and gave " + std::to_string(out.size()) + " bytes");
			else same("gunzip-damaged", out, c, how);
		} else {
			vf::check(e != "thrown", "gunzip-exception", "not a standard exception");
			vf::count("damaged gzip refused");
		}
	}
	if (r.chance(1, 3)) { // what cannot be opened
		const Resource::File missing(scratch() + "/none/such");
		const Resource::File there(in);
		rawWrite(in, "here");
		std::string s = "kept";
		std::unique_ptr<std::istream> stream;
		std::istringstream text("x");
		const std::string es[6] = {
			refused([&] () { GZip::gzip(missing, there); }), refused([&] () { GZip::gzip(std::string("x"), missing); }), refused([&] () { GZip::gzip(text, missing); }),
			refused([&] () { GZip::gunzip(missing, there); }), refused([&] () { GZip::gunzip(missing, s); }), refused([&] () { GZip::gunzip(missing, stream); }) };
		for (int m = 0; m < 6; ++m) vf::check(es[m] == "open", "gzip-unopenable", "case " + std::to_string(m) + " of a missing file: " + (es[m].empty() ? "accepted" : es[m]));
		same("gzip-unopenable", rawRead(in), "here", "an output without input");
		vf::count("unopenable files refused", 6);
	}
});

// ------------------------------------------------ an independent zip reader

struct Entry {
	std::string data, comment;
	bool readable = true; // not encrypted
	long long index = 0;
};
struct Archive {
	std::map<std::string, Entry> entries;
	std::string comment, error;
};
static uint32_t le(const std::string & s, size_t at, int n) {
	uint32_t v = 0;
	for (int m = 0; m < n; ++m) v |= (uint32_t) (unsigned char) (at + (size_t) m < s.size() ? s[at + (size_t) m] : 0) << (8 * m);
	return v;
}
static Archive readZip(const std::string & s) {
	Archive a;
	size_t end = std::string::npos;
	for (size_t m = s.size() < 22 ? 0 : s.size() - 22 + 1; m-- > 0;)
		if (s.compare(m, 4, "PK\5\6") == 0 && m + 22 + le(s, m + 20, 2) == s.size()) { end = m; break; }
	if (end == std::string::npos) { a.error = "no end of the central directory"; return a; }
	a.comment = s.substr(end + 22);
	const uint32_t n = le(s, end + 10, 2);
	size_t at = le(s, end + 16, 4);
	for (uint32_t m = 0; m < n; ++m) {
		if (s.compare(at, 4, "PK\1\2") != 0) { a.error = "bad central directory"; return a; }
		const uint32_t flags = le(s, at + 8, 2), method = le(s, at + 10, 2), crc = le(s, at + 16, 4), csize = le(s, at + 20, 4), usize = le(s, at + 24, 4);
		const uint32_t nl = le(s, at + 28, 2), xl = le(s, at + 30, 2), cl = le(s, at + 32, 2), local = le(s, at + 42, 4);
		const std::string name = s.substr(at + 46, nl);
		Entry e;
		e.index = m;
		e.comment = s.substr(at + 46 + nl + xl, cl);
		at += 46 + nl + xl + cl;
		if (s.compare(local, 4, "PK\3\4") != 0) { a.error = "bad local header of " + name; return a; }
		if (s.substr(local + 30, le(s, local + 26, 2)) != name) { a.error = "names of " + name + " differ"; return a; }
		if (flags & 1) e.readable = false;
		else {
			const std::string data = s.substr(local + 30 + le(s, local + 26, 2) + le(s, local + 28, 2), csize);
			bool ok = true;
			if (method == 0) e.data = data;
			else if (method == 8) e.data = inflateAll(data, -15, ok);
			else ok = false;
			if (!ok || e.data.size() != usize || crc32_z(0, (const Bytef *) e.data.data(), e.data.size()) != crc) { a.error = "bad data of " + name; return a; }
		}
		if (!a.entries.emplace(name, e).second) { a.error = "two entries named " + name; return a; }
	}
	return a;
}

// ------------------------------------------------ zip

struct Model {
	std::map<std::string, std::string> data;       // directories end with a slash
	std::map<std::string, std::string> comments;
	std::set<std::string> encrypted;
	std::string comment;
};
static const char * const Password = "testPW \xC3\xA9";

static std::string component(vf::Rng & r) {
	static const char * const words[] = { "a", "b", "c", "aa", "ab", "a.txt", "\xC3\xA9t\xC3\xA9", "\xE6\xBC\xA2", "with space", "A", "x\\y", "#", "..." };
	return words[r.below(r.chance(1, 2) ? 5 : 13)];
}
static std::string newName(vf::Rng & r, bool directory) {
	std::string s = component(r);
	for (int n = (int) r.below(4); n > 1; --n) s += "/" + component(r);
	return directory ? s + "/" : s;
}
static std::string anyName(vf::Rng & r, const Model & m) {
	if (m.data.empty()) return newName(r, false);
	auto i = m.data.begin();
	std::advance(i, (long) r.below(m.data.size()));
	return i->first;
}
static std::string spelt(vf::Rng & r, const std::string & name) { // separators are cleaned up
	if (!r.chance(1, 10)) return name;
	const size_t at = name.find('/');
	return at == std::string::npos || r.chance(1, 2) ? "/" + name : name.substr(0, at) + "//" + name.substr(at + 1);
}
static std::string text(const std::vector<char> & v) { return std::string(v.begin(), v.end()); }

// An archive made by LibZip directly: entry comments, stored and encrypted entries.
static void foreign(const std::string & path, Model & m, vf::Rng & r) {
	int error = 0;
	zip_t * z = zip_open(path.c_str(), ZIP_CREATE | ZIP_TRUNCATE, &error);
	std::list<std::string> kept;
	for (int n = 1 + (int) r.below(6); n > 0; --n) {
		const std::string name = newName(r, r.chance(1, 6));
		if (m.data.count(name)) continue;
		zip_int64_t i;
		if (name.back() == '/') {
			i = zip_dir_add(z, name.c_str(), ZIP_FL_ENC_UTF_8);
			m.data[name] = "";
		} else {
			kept.push_back(content(r));
			m.data[name] = kept.back();
			i = zip_file_add(z, name.c_str(), zip_source_buffer(z, kept.back().data(), kept.back().size(), 0), ZIP_FL_ENC_UTF_8);
			if (r.chance(1, 3)) zip_set_file_compression(z, (zip_uint64_t) i, ZIP_CM_STORE, 0);
			if (r.chance(1, 3)) {
				static const zip_uint16_t kinds[] = { ZIP_EM_AES_128, ZIP_EM_AES_192, ZIP_EM_AES_256, ZIP_EM_TRAD_PKWARE };
				if (zip_file_set_encryption(z, (zip_uint64_t) i, kinds[r.below(4)], Password) == 0) m.encrypted.insert(name);
			}
		}
		if (r.chance(1, 3)) {
			const std::string c = "comment " + component(r);
			zip_file_set_comment(z, (zip_uint64_t) i, c.data(), (zip_uint16_t) c.size(), ZIP_FL_ENC_UTF_8);
			m.comments[name] = c;
		}
	}
	if (r.chance(1, 2)) {
		m.comment = "archive " + component(r);
		zip_set_archive_comment(z, m.comment.data(), (zip_uint16_t) m.comment.size());
	}
	if (zip_close(z) != 0) { fprintf(stderr, "cannot make an archive: %s\n", zip_strerror(z)); _exit(2); }
}

// Everything that an unzipper says about the archive.
static void examine(const std::string & path, const Model & m, vf::Rng & r) {
	Unzipper u;
	const bool password = !m.encrypted.empty();
	if (password) u.open(Resource::File(path), r.chance(1, 2), Password);
	else u.open(Resource::File(path), r.chance(1, 2));
	vf::check(u.isOpen(), "zip-open", "not open after opening");
	vf::check(u.getPath() == Resource::File(path), "zip-path", "getPath gives " + u.getPath().toRawString());
	same("zip-comment", u.readArchiveComment(), m.comment);
	const auto names = u.entryNames();
	std::set<std::string> sorted(names.begin(), names.end());
	std::string got, want;
	for (auto & n : sorted) got += n + "\n";
	for (auto & [n, d] : m.data) want += n + "\n";
	vf::check(got == want && names.size() == sorted.size(), "zip-names", "the entries are " + show(got, 600) + " instead of " + show(want, 600));
	vf::check(u.entryCount() == (long long) m.data.size(), "zip-count", std::to_string(u.entryCount()) + " entries instead of " + std::to_string(m.data.size()));
	for (auto & n : names) {
		if (!m.data.count(n)) continue;
		const std::string & d = m.data.at(n);
		vf::check(u.hasEntry(spelt(r, n)), "zip-has", "hasEntry is false for " + show(n));
		const long long i = u.getEntryIndex(n);
		if (!vf::check(i >= 0 && i < u.entryCount() && names[(size_t) i] == n, "zip-index", "entry " + show(n) + " has the index " + std::to_string(i))) continue;
		same("zip-name", u.getEntryName(i), n);
		Util::ZipEntryInfo info {}, info2 {};
		u.getEntryInfo(spelt(r, n), info);
		u.getEntryInfo(i, info2);
		vf::check(info == info2 && info.name == n && info.index == i && info.uncompressedSize == (long long) d.size(), "zip-info",
			"info of " + show(n) + " of " + std::to_string(d.size()) + " bytes: " + show(Util::toString(info)));
		vf::check(m.encrypted.count(n) || info.crc == crc32_z(0, (const Bytef *) d.data(), d.size()), "zip-info-crc", "the crc of " + show(n) + " is " + std::to_string(info.crc));
		vf::check((info.encryptionMethod != 0) == (m.encrypted.count(n) != 0), "zip-info-encryption", "encryption method of " + show(n) + ": " + std::to_string(info.encryptionMethod));
		const std::string comment = m.comments.count(n) ? m.comments.at(n) : "";
		same("zip-entry-comment", u.readEntryComment(n), comment, n);
		same("zip-entry-comment", u.readEntryComment(i), comment, n);
		same("zip-bytes", text(u.readEntryAsBytes(i)), d, n);
		same("zip-string", u.readEntryAsString(i), d, n);
		if (n.back() != '/') {
			same("zip-bytes", text(u.readEntryAsBytes(spelt(r, n))), d, n);
			same("zip-string", u.readEntryAsString(spelt(r, n)), d, n);
		}
		vf::count("zip entries read");
	}
	{
		std::string missing = newName(r, r.chance(1, 3));
		if (!m.data.count(missing)) {
			vf::check(!u.hasEntry(missing), "zip-has", "hasEntry is true for " + show(missing));
			Util::ZipEntryInfo info {};
			std::string es[7] = { refused([&] () { u.getEntryInfo(missing, info); }), refused([&] () { u.readEntryComment(missing); }),
				refused([&] () { u.readEntryAsBytes(missing); }), refused([&] () { u.readEntryAsString(missing); }),
				refused([&] () { u.readEntryAsBytes(u.entryCount()); }), refused([&] () { u.readEntryAsString(u.entryCount() + 7); }), refused([&] () { u.getEntryName(u.entryCount()); }) };
			for (int k = 0; k < 7; ++k) vf::check(es[k] == "zip", "zip-missing", "case " + std::to_string(k) + " of a missing entry " + show(missing) + ": " + (es[k].empty() ? "accepted" : es[k]));
			vf::count("missing entries refused", 7);
		}
	}
	if (password) { // without it, or with another one, nothing encrypted is given out
		Unzipper w;
		if (r.chance(1, 2)) w.open(Resource::File(path), false);
		else w.open(Resource::File(path), false, "not the password");
		for (auto & n : m.encrypted) {
			if (m.data.at(n).empty()) continue;
			std::string b;
			const bool bytes = r.chance(1, 2);
			const std::string e = refused([&] () { b = bytes ? text(w.readEntryAsBytes(n)) : w.readEntryAsString(n); });
			vf::check(e == "zip", "zip-password", "the encrypted entry " + show(n) + " of " + std::to_string(m.data.at(n).size()) + " bytes is read with the wrong password: " + (e.empty() ? "accepted" : e));
			vf::count("wrong passwords refused");
		}
	}
	u.close();
	vf::check(!u.isOpen(), "zip-open", "open after closing");
}

// The zip file and zip entry resources.
static void iterate(const std::string & path, const Model & m, vf::Rng & r) {
	Resource::ZipFile first = m.encrypted.empty() ? Resource::ZipFile(Resource::File(path)) : Resource::ZipFile(Resource::File(path), Password);
	Resource::ZipFile second(Resource::File("elsewhere"), "other");
	switch (r.below(3)) {
		case 0: second = std::move(first); break;
		case 1: second = first; break;
		default: break;
	}
	Resource::ZipFile zip = second.toRawString() == path ? Resource::ZipFile(std::move(second)) : r.chance(1, 2) ? Resource::ZipFile(first) : Resource::ZipFile(std::move(first));
	std::set<std::string> seen;
	const auto entry = [&] (const Resource::ZipEntry & e) {
		const std::string n = e.name();
		if (!vf::check(m.data.count(n) && seen.insert(n).second, "zip-iterator", "the iterator gives " + show(n) + " unexpectedly")) return;
		const std::string & d = m.data.at(n);
		vf::check(e.isEntryDirectory() == (n.back() == '/') && e.isEntryFile() == (n.back() != '/'), "zip-entry", "kind of " + show(n));
		vf::check(e.size() == d.size(), "zip-entry", "size of " + show(n) + " is " + std::to_string(e.size()));
		same("zip-entry", e.readEntryComment(), m.comments.count(n) ? m.comments.at(n) : "", n);
		same("zip-entry", text(e.readEntryAsBytes()), d, n);
		same("zip-entry", e.readEntryAsString(), d, n);
		same("zip-entry", e.toUriString(), "file://" + path + "#" + n);
		vf::check(e == *e.clone() && e.hashcode() == e.clone()->hashcode() && e.canReadFrom() && !e.canWriteTo(), "zip-entry", "a clone of " + show(n) + " differs");
		{
			auto res = e.byteReadResource();
			auto direct = e.getByteReadResource();
			auto moved = std::move(direct);
			for (std::istream * in : { &res->readStream(), &moved.readStream() }) {
				std::string s;
				std::vector<char> b(1 + r.below(5000));
				while (in->read(b.data(), (std::streamsize) b.size()), in->gcount() > 0) s.append(b.data(), (size_t) in->gcount());
				vf::check(!in->bad(), "zip-entry-stream", "the stream of " + show(n) + " went bad");
				same("zip-entry-stream", s, d, n);
			}
		}
		if (uni::valid(d) && d.compare(0, 3, "\xEF\xBB\xBF") != 0) {
			auto res = e.utf8To32ReadResource();
			auto direct = e.getUtf8To32ReadResource();
			auto moved = std::move(direct);
			for (std::u32istream * in : { &res->readStream(), &moved.readStream() }) {
				std::u32string s;
				for (char32_t c; in->get(c);) s += c;
				same("zip-entry-text", uni::encode(s), d, n);
			}
			vf::count("zip entries read as text");
		}
		vf::count("zip entries iterated");
	};
	if (r.chance(1, 2)) {
		auto i = zip.recursiveZipFileIterator(r.chance(1, 2));
		while (i.hasNext()) entry(i.next());
	} else {
		auto i = zip.recursiveIterator();
		while (i->hasNext()) { auto e = i->next(); entry(dynamic_cast<const Resource::ZipEntry &>(*e)); }
	}
	vf::check(seen.size() == m.data.size(), "zip-iterator", std::to_string(seen.size()) + " entries iterated instead of " + std::to_string(m.data.size()));
}

static void compareIndependent(const std::string & path, const Model & m) {
	const Archive a = readZip(rawRead(path));
	if (!vf::check(a.error.empty(), "zip-format", "the archive is not well formed: " + a.error)) return;
	same("zip-file-comment", a.comment, m.comment);
	std::string got, want;
	for (auto & [n, e] : a.entries) got += n + "\n";
	for (auto & [n, d] : m.data) want += n + "\n";
	vf::check(got == want, "zip-file-names", "the entries in the file are " + show(got, 600) + " instead of " + show(want, 600));
	for (auto & [n, e] : a.entries) {
		if (!m.data.count(n)) continue;
		vf::check(e.readable == !m.encrypted.count(n), "zip-file-encryption", "entry " + show(n) + " is " + (e.readable ? "not " : "") + "encrypted");
		if (e.readable) same("zip-file-data", e.data, m.data.at(n), n);
		same("zip-file-entry-comment", e.comment, m.comments.count(n) ? m.comments.at(n) : "", n);
	}
	vf::count("archives read independently");
}

// What is put in memory must be copied: the argument is gone afterwards.
static void put(Zipper & z, const std::string & name, const std::string & data, int form, const std::string & file) {
	if (form == 0) {
		std::unique_ptr<std::vector<char>> v(new std::vector<char>(data.begin(), data.end()));
		z.putEntry(name, *v);
		for (auto & c : *v) c = '!';
	} else if (form == 1) {
		std::unique_ptr<std::string> s(new std::string(data));
		z.putEntry(name, *s);
		for (auto & c : *s) c = '!';
	} else {
		rawWrite(file, data);
		z.putEntry(name, Resource::File(file));
	}
}
static void closedCalls(Unzipper & u, Zipper * z) {
	Util::ZipEntryInfo info {};
	std::vector<std::string> es = {
		refused([&] () { u.readArchiveComment(); }), refused([&] () { u.entryCount(); }), refused([&] () { u.entryNames(); }), refused([&] () { u.hasEntry("a"); }),
		refused([&] () { u.getEntryIndex("a"); }), refused([&] () { u.getEntryName(0); }), refused([&] () { u.getEntryInfo("a", info); }), refused([&] () { u.getEntryInfo(0, info); }),
		refused([&] () { u.readEntryComment("a"); }), refused([&] () { u.readEntryComment(0); }), refused([&] () { u.readEntryAsBytes("a"); }), refused([&] () { u.readEntryAsBytes(0); }),
		refused([&] () { u.readEntryAsString("a"); }), refused([&] () { u.readEntryAsString(0); }) };
	if (z) {
		es.push_back(refused([&] () { z->putArchiveComment("a"); }));
		es.push_back(refused([&] () { z->deleteComment(); }));
		es.push_back(refused([&] () { z->putDirectory("a/"); }));
		es.push_back(refused([&] () { z->putEntry("a", std::string("b")); }));
		es.push_back(refused([&] () { z->putEntry("a", std::vector<char>(1)); }));
		es.push_back(refused([&] () { z->renameEntry("a", "b"); }));
		es.push_back(refused([&] () { z->deleteEntry("a"); }));
		z->commit();
	}
	for (size_t m = 0; m < es.size(); ++m)
		vf::check(es[m] == "zip", "zip-closed", "call " + std::to_string(m) + " without an open archive: " + (es[m].empty() ? "accepted" : es[m]));
	vf::check(!u.isOpen(), "zip-closed", "open without opening");
	u.close();
	vf::count("calls on closed archives refused", es.size());
}

static vf::Mode zip("zip", [] (int64_t, vf::Rng & r) {
	const std::string path = scratch() + "/archive.zip";
	unlink(path.c_str());
	Model m;
	const bool made = r.chance(1, 2);
	if (made) {
		foreign(path, m, r);
		compareIndependent(path, m);
		examine(path, m, r);
	}
	std::string history = made ? "an archive made by LibZip" : "a new archive";
	for (int transactions = 1 + (int) r.below(4); transactions > 0; --transactions) {
		const std::string before = present(path) ? rawRead(path) : "";
		const bool existed = present(path);
		Model n = m;
		auto z = std::make_unique<Zipper>();
		if (r.chance(1, 20)) closedCalls(*z, z.get());
		const bool password = !m.encrypted.empty() && r.chance(2, 3);
		if (!password) z->open(Resource::File(path), r.chance(1, 2));
		else z->open(Resource::File(path), r.chance(1, 2), Password);
		std::set<std::string> touched;
		int files = 0;
		bool badSource = false;
		history += "; transaction:";
		for (int ops = 1 + (int) r.below(8); ops > 0; --ops) {
			const auto putDirectories = [&] (const std::string & name) { // and its parents
				for (size_t at = name.find('/'); at != std::string::npos; at = name.find('/', at + 1)) if (!n.data.count(name.substr(0, at + 1))) { n.data[name.substr(0, at + 1)] = ""; touched.insert(name.substr(0, at + 1)); }
			};
			switch (r.below(12)) {
				case 0: case 1: case 2: case 3: case 4: {
					std::string name = r.chance(1, 3) ? anyName(r, n) : newName(r, false);
					if (name.back() == '/') name += "f";
					if (!password && n.encrypted.count(name)) break; // a replaced entry stays encrypted, which needs the password
					const std::string d = content(r);
					const int form = (int) r.below(3);
					history += " put " + name + " " + std::to_string(d.size()) + ",";
					put(*z, spelt(r, name), d, form, scratch() + "/source." + std::to_string(files++));
					putDirectories(name);
					n.data[name] = d;
					touched.insert(name);
					break;
				}
				case 5: {
					const std::string name = newName(r, true);
					history += " dir " + name + ",";
					z->putDirectory(spelt(r, name));
					putDirectories(name);
					break;
				}
				case 6: case 7: {
					std::string from = r.chance(1, 12) ? newName(r, false) : anyName(r, n);
					const bool dir = from.back() == '/';
					std::string to = newName(r, dir);
					if (to.compare(0, from.size(), from) == 0) break;
					history += " rename " + from + " to " + to + ",";
					if (!n.data.count(from)) {
						if (dir) break;
						const std::string e = refused([&] () { z->renameEntry(from, to); });
						vf::check(e == "zip", "zip-rename-missing", "renaming the missing entry " + show(from) + ": " + (e.empty() ? "accepted" : e) + "; " + history);
						vf::count("missing entries refused");
						break;
					}
					if (dir) {
						std::vector<std::pair<std::string, std::string>> moves;
						bool collision = false;
						for (auto & [k, d] : n.data) if (k.compare(0, from.size(), from) == 0) { moves.emplace_back(k, to + k.substr(from.size())); if (n.data.count(moves.back().second)) collision = true; }
						if (collision) break;
						z->renameEntry(spelt(r, from), spelt(r, to));
						for (auto & [a, b] : moves) {
							n.data[b] = n.data[a]; n.data.erase(a);
							if (n.comments.count(a)) { n.comments[b] = n.comments[a]; n.comments.erase(a); }
							if (n.encrypted.erase(a)) n.encrypted.insert(b);
							touched.insert(a); touched.insert(b);
						}
						vf::count("directories renamed");
					} else if (n.data.count(to)) {
						const std::string e = refused([&] () { z->renameEntry(from, to); });
						vf::check(e == "zip", "zip-rename-existing", "renaming " + show(from) + " to the existing " + show(to) + ": " + (e.empty() ? "accepted" : e) + "; " + history);
					} else {
						z->renameEntry(spelt(r, from), spelt(r, to));
						n.data[to] = n.data[from]; n.data.erase(from);
						if (n.comments.count(from)) { n.comments[to] = n.comments[from]; n.comments.erase(from); }
						if (n.encrypted.erase(from)) n.encrypted.insert(to);
						touched.insert(from); touched.insert(to);
						vf::count("files renamed");
					}
					break;
				}
				case 8: case 9: {
					std::string name = r.chance(1, 12) ? newName(r, false) : anyName(r, n);
					history += " delete " + name + ",";
					if (!n.data.count(name)) {
						if (name.back() == '/') break;
						const std::string e = refused([&] () { z->deleteEntry(name); });
						vf::check(e == "zip", "zip-delete-missing", "deleting the missing entry " + show(name) + ": " + (e.empty() ? "accepted" : e) + "; " + history);
						vf::count("missing entries refused");
						break;
					}
					z->deleteEntry(spelt(r, name));
					std::vector<std::string> gone;
					for (auto & [k, d] : n.data) if (name.back() == '/' ? k.compare(0, name.size(), name) == 0 : k == name) gone.push_back(k);
					for (auto & k : gone) { n.data.erase(k); n.comments.erase(k); n.encrypted.erase(k); touched.insert(k); }
					vf::count("entries deleted", gone.size());
					break;
				}
				case 10: {
					if (r.chance(1, 3)) { z->deleteComment(); n.comment = ""; history += " no comment,"; }
					else { n.comment = r.chance(1, 8) ? std::string(65535, 'c') : "comment " + component(r) + std::to_string(r.below(100)); z->putArchiveComment(n.comment); history += " comment,"; }
					break;
				}
				default: { // an entry that is not part of the transaction is read from the archive
					if (m.data.empty()) break;
					const std::string k = anyName(r, m);
					if (touched.count(k) || m.encrypted.count(k) || k.back() == '/') break;
					same("zip-transaction-read", r.chance(1, 2) ? text(z->readEntryAsBytes(k)) : z->readEntryAsString(k), m.data.at(k), k + "; " + history);
					vf::count("entries read in a transaction");
					break;
				}
			}
		}
		if (r.chance(1, 15)) { // a source that does not exist fails the commit
			z->putEntry("unavailable", Resource::File(scratch() + "/no such source"));
			badSource = true;
		}
		if (r.chance(1, 4) || n.data.empty() || badSource) { // abandoned
			if (badSource) {
				const std::string e = refused([&] () { z->commit(); });
				vf::check(e == "zip", "zip-commit-failure", "committing an entry from a missing file: " + (e.empty() ? "accepted" : e));
				vf::check(z->isOpen(), "zip-commit-failure", "the transaction is not open after its commit failed");
				vf::count("failed commits");
			}
			if (r.chance(1, 2)) { z->close(); vf::check(!z->isOpen(), "zip-open", "open after closing"); }
			z.reset();
			history += " abandoned";
			vf::check(present(path) == existed && (!existed || rawRead(path) == before), "zip-rollback", "an abandoned transaction changed the file; " + history);
			vf::count("transactions abandoned");
		} else {
			z->commit();
			vf::check(!z->isOpen(), "zip-open", "open after committing");
			if (r.chance(1, 4)) closedCalls(*z, z.get());
			z.reset();
			history += " committed";
			m = n;
			if (!vf::check(present(path), "zip-commit", "no file after " + history)) return;
			vf::count("transactions committed");
			compareIndependent(path, m);
			examine(path, m, r);
			if (r.chance(1, 2)) iterate(path, m, r);
		}
		while (files > 0) unlink((scratch() + "/source." + std::to_string(--files)).c_str());
	}
	vf::distinct(vf::hashStr(history));
	vf::sample(history);
});

// Damaged archives: every read gives the right content or is refused.
static vf::Mode damaged("damaged", [] (int64_t, vf::Rng & r) {
	const std::string path = scratch() + "/damaged.zip";
	Model m;
	unlink(path.c_str());
	foreign(path, m, r);
	const std::string whole = rawRead(path);
	for (int n = 12; n > 0; --n) {
		std::string s = whole;
		switch (r.below(6)) {
			case 0: s.resize(r.below(s.size())); break;
			case 1: s.insert(r.below(s.size()), std::string(1 + r.below(20), (char) r.below(256))); break;
			case 2: s.erase(r.below(s.size()), 1 + r.below(20)); break;
			default: for (int k = 1 + (int) r.below(3); k > 0; --k) { const size_t at = r.below(s.size()); s[at] = (char) (s[at] ^ (1 << r.below(8))); } break;
		}
		rawWrite(path, s);
		vf::distinct(vf::hashStr(s));
		const std::string e = refused([&] () {
			Unzipper u;
			u.open(Resource::File(path), r.chance(1, 2), Password);
			vf::count("damaged archives opened");
			u.readArchiveComment();
			const auto names = u.entryNames();
			for (long long i = 0; i < u.entryCount(); ++i) {
				Util::ZipEntryInfo info {};
				u.getEntryInfo(i, info);
				if (info.uncompressedSize > (1 << 26) || info.uncompressedSize < 0) continue;
				u.readEntryComment(i);
				for (int form = 0; form < 2; ++form) {
					std::string got;
					const std::string x = refused([&] () { got = form ? text(u.readEntryAsBytes(i)) : u.readEntryAsString(i); });
					if (!x.empty()) { vf::count("damaged entries refused"); continue; }
					// Without an encryption flag, encrypted bytes are content.
					if (m.data.count(info.name) && info.encryptionMethod == (m.encrypted.count(info.name) ? info.encryptionMethod : 0) && (info.encryptionMethod != 0) == (m.encrypted.count(info.name) != 0)) {
						const bool checked = info.encryptionMethod == 0 || info.encryptionMethod == ZIP_EM_TRAD_PKWARE;
						const std::string & d = m.data.at(info.name);
						vf::check(got == d || (checked && crc32_z(0, (const Bytef *) got.data(), got.size()) == info.crc && info.crc != crc32_z(0, (const Bytef *) d.data(), d.size())), "zip-damaged",
							"the entry " + show(info.name) + " of a damaged archive: " + differ(got, d));
					}
					vf::count("entries of damaged archives read");
				}
			}
		});
		vf::check(e.empty() || e == "zip", "zip-damaged-exception", "a damaged archive gives the exception " + e);
		if (!e.empty()) vf::count("damaged archives refused");
	}
});

static vf::Mode unopened("unopened", [] (int64_t, vf::Rng & r) {
	const std::string path = scratch() + "/not.zip";
	std::string s = content(r);
	if (s.size() < 4 || s.find("PK") != std::string::npos) s = "not an archive";
	unlink(path.c_str());
	const bool there = r.chance(2, 3);
	if (there) rawWrite(path, s);
	vf::distinct(vf::hashStr(s));
	alignas(Unzipper) static char dirty[sizeof(Zipper) + sizeof(Unzipper)];
	memset(dirty, 0xA5, sizeof dirty);
	Unzipper & u = *new (dirty) Unzipper;
	closedCalls(u, nullptr);
	std::string e = refused([&] () { u.open(Resource::File(path), r.chance(1, 2)); });
	vf::check(e == "zip", "zip-not-an-archive", "opening what is no archive: " + (e.empty() ? std::string("accepted") : e));
	closedCalls(u, nullptr);
	u.~Unzipper();
	if (there) {
		memset(dirty, 0xA5, sizeof dirty);
		
		Zipper & z = *new (dirty) Zipper;
		closedCalls(z, &z);
		e = refused([&] () { z.open(Resource::File(path), r.chance(1, 2)); });
		vf::check(e == "zip", "zip-not-an-archive", "writing to what is no archive: " + (e.empty() ? std::string("accepted") : e));
		closedCalls(z, &z);
		z.~Zipper();
		same("zip-not-an-archive", rawRead(path), s, "the file");
	}
	vf::count("non-archives refused");
});
