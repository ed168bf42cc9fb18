//
// res.cpp : monitors of resources, files and directory traversal (P17). Everything
// happens inside the scratch directory of the run.
//
#include "unicode.hpp"

#include <boost/core/demangle.hpp>
#include <Balau/Type/FromString.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Resource/File.hpp>
#include <Balau/Resource/StringUri.hpp>
#include <Balau/Resource/Http.hpp>
#include <Balau/Util/Files.hpp>
#include <Balau/Util/Streams.hpp>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/stat.h>

using namespace Balau;
using namespace Balau::Resource;
using vf::show;
namespace fs = boost::filesystem;

static const std::string & scratch() {
	static const std::string d = [] { std::string s = vf::st().scratch + "/res." + std::to_string(getpid()); mkdir(s.c_str(), 0755); return s; }();
	return d;
}
static std::string rawRead(const std::string & p) {
	int fd = open(p.c_str(), O_RDONLY);
	if (fd < 0) return "(cannot open)";
	std::string s;
	char b[65536];
	for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) s.append(b, (size_t) n);
	close(fd);
	return s;
}
static void rawWrite(const std::string & p, const std::string & s) {
	int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	for (size_t m = 0; m < s.size();) { ssize_t n = write(fd, s.data() + m, s.size() - m); if (n <= 0) break; m += (size_t) n; }
	close(fd);
}
static std::string differ(const std::string & got, const std::string & want) {
	size_t m = 0;
	while (m < got.size() && m < want.size() && got[m] == want[m]) ++m;
	return std::to_string(got.size()) + " bytes instead of " + std::to_string(want.size()) + ", different from byte " + std::to_string(m) + " on: "
		+ show(got.substr(m, 40)) + " instead of " + show(want.substr(m, 40));
}
static void sameBytes(const char * key, const std::string & got, const std::string & want) {
	vf::check(got == want, key, std::string(key) + ": " + differ(got, want));
}
static void sameText(const char * key, const std::u32string & got, const std::u32string & want) {
	vf::check(got == want, key, std::string(key) + ": " + differ(uni::encode(got), uni::encode(want)));
}
static size_t length(vf::Rng & r) {
	switch (r.below(8)) {
		case 0: return r.below(3);
		case 1: return (size_t) r.range(4090, 4100);
		case 2: return (size_t) r.range(8186, 8196);
		case 3: return r.below(vf::st().thorough ? 300000 : 40000);
		default: return r.below(300);
	}
}
static std::string bytes(vf::Rng & r) {
	const size_t n = length(r);
	std::string s;
	const int style = (int) r.below(4);
	for (size_t m = 0; m < n; ++m) {
		if (style == 0) s += (char) r.below(256);
		else if (style == 1) s += r.of({ 'a', '\n', '\r', '\0', '\x1A', '\xFF' });
		else s += r.chance(1, 12) ? '\n' : (char) r.range(32, 126);
	}
	return s;
}
static std::u32string text(vf::Rng & r, bool bomAllowed) {
	const size_t n = length(r);
	const bool heavy = r.chance(1, 2);
	std::u32string s;
	for (size_t m = 0; m < n; ++m) {
		char32_t c = heavy ? uni::anyCodePoint(r) : (r.chance(1, 10) ? U'\n' : (char32_t) r.range(32, 126));
		if (heavy && r.chance(1, 2)) c = r.of<char32_t>({ 0x1F600, 0x20AC, 0xE9, 0x10FFFF });
		if (c == 0xFEFF && (!bomAllowed || m == 0)) c = U'b';
		s += c;
	}
	return s;
}
template <typename C, typename S> static void writeInPieces(vf::Rng & r, S & stream, const std::basic_string<C> & s) {
	for (size_t m = 0; m < s.size();) {
		const size_t n = 1 + r.below(r.of<uint64_t>({ 4, 100, 5000, 50000 }));
		const auto piece = s.substr(m, n);
		switch (r.below(4)) {
			case 0: if (piece.size() < 200) { for (C c : piece) stream.put(c); break; } [[fallthrough]];
			case 1: stream.write(piece.data(), (std::streamsize) piece.size()); break;
			case 2: stream.write(piece.data(), (std::streamsize) piece.size()); if (r.chance(1, 4)) stream.flush(); break;
			default: stream.rdbuf()->sputn(piece.data(), (std::streamsize) piece.size()); break;
		}
		m += piece.size();
	}
}
template <typename C, typename S> static std::basic_string<C> readInPieces(vf::Rng & r, S & stream) {
	std::basic_string<C> s;
	std::vector<C> b(6000);
	while (stream) {
		if (r.chance(1, 4)) {
			auto c = stream.get();
			if (c == std::char_traits<C>::eof()) break;
			s += (C) c;
		} else {
			stream.read(b.data(), (std::streamsize) (1 + r.below(r.of<uint64_t>({ 3, 100, 5999 }))));
			s.append(b.data(), (size_t) stream.gcount());
		}
	}
	return s;
}
static std::vector<std::string> lines(const std::string & s) {
	std::vector<std::string> v;
	std::string cur;
	for (char c : s) if (c == '\n') { v.push_back(cur); cur.clear(); } else cur += c;
	if (!cur.empty()) v.push_back(cur);
	return v;
}
template <typename F> static void notFound(const char * what, F f) {
	try { f(); vf::violation("missing-file-read", std::string(what) + " of a file that does not exist succeeded"); }
	catch (const Exception::NotFoundException &) { vf::count("missing files refused"); }
}

static void contents(int64_t c, vf::Rng & r) {
	const std::string path = scratch() + "/f" + std::to_string(c) + r.of<std::string>({ "", ".txt", " x", "\xC3\xA9" });
	File file = r.chance(1, 2) ? File(path) : File(scratch()) / path.substr(scratch().size() + 1);
	const std::string content = bytes(r);
	vf::distinct(content);
	if (c % 500 == 0) vf::sample(std::to_string(content.size()) + " bytes " + show(content.substr(0, 40)));
	vf::check(!file.exists() && !file.isRegularFile() && !file.isRegularDirectory(), "exists", "before it is written");
	notFound("byte read resource", [&] { file.getByteReadResource(); });
	notFound("UTF-32 read resource", [&] { file.utf8To32ReadResource(); });
	notFound("readToString", [&] { Util::Files::readToString(file); });
	notFound("readToVector", [&] { Util::Files::readToVector(file); });
	notFound("toLines", [&] { Util::Files::toLines(file); });
	// Write through a resource, sometimes one that was moved.
	switch (r.below(4)) {
		case 0: {
			auto w = file.getByteWriteResource();
			writeInPieces(r, w.writeStream(), content);
			vf::check(static_cast<const Uri &>(w.uri()) == file, "resource-uri", path);
			break;
		}
		case 1: {
			auto w = file.byteWriteResource();
			writeInPieces(r, w->writeStream(), content);
			w->close();
			if (r.chance(1, 2)) sameBytes("written-and-closed", rawRead(path), content);
			break;
		}
		case 2: {
			FileByteWriteResource a(file);
			const size_t m = r.below(content.size() + 1);
			writeInPieces(r, a.writeStream(), content.substr(0, m));
			FileByteWriteResource b(std::move(a));
			writeInPieces(r, b.writeStream(), content.substr(m));
			vf::count("moved resources");
			break;
		}
		default: rawWrite(path, content); break;
	}
	sameBytes("written", rawRead(path), content);
	vf::check(file.exists() && file.isRegularFile() && !file.isRegularDirectory(), "exists", "after it is written");
	vf::check(file.size() == content.size(), "size", std::to_string(file.size()) + " instead of " + std::to_string(content.size()));
	// Read it in every way.
	{
		auto in = file.byteReadResource();
		sameBytes("byteReadResource", readInPieces<char>(r, in->readStream()), content);
		FileByteReadResource a(file);
		std::string head;
		for (uint64_t n = r.below(20); n; --n) { int ch = a.readStream().get(); if (ch >= 0) head += (char) ch; }
		a.readStream().clear();
		FileByteReadResource b(std::move(a));
		sameBytes("moved byte read resource", head + toString(b.readStream()), content);
		vf::check(b.uri() == file && b.getFile() == file, "resource-uri", path);
		sameBytes("readToString", Util::Files::readToString(file), content);
		auto v = Util::Files::readToVector(file);
		sameBytes("readToVector", std::string(v.begin(), v.end()), content);
		vf::check(Util::Files::toLines(file) == lines(content), "toLines", show(content));
		vf::check(Util::Streams::readLinesToVector(file.getByteReadResource().readStream()) == lines(content), "readLinesToVector", show(content));
		std::ostringstream o;
		Util::Streams::consume(o, file.getByteReadResource().readStream());
		sameBytes("consume", o.str(), content);
		vf::count("files read back");
	}
	// Copy it; an existing destination is not overwritten.
	{
		File dst(path + ".copy");
		Util::Files::copy(file, dst);
		sameBytes("copy", rawRead(path + ".copy"), content);
		sameBytes("source after the copy", rawRead(path), content);
		rawWrite(path, content + "2");
		try { Util::Files::copy(file, dst); vf::violation("copy-overwrites", path); } catch (const fs::filesystem_error &) {}
		sameBytes("destination after a refused copy", rawRead(path + ".copy"), content);
		vf::check(dst.removeFile() && !dst.exists() && !dst.removeFile(), "removeFile", path);
	}
	vf::check(file.size() == content.size() + 1, "size", "after another change");
	vf::check(file.removeFile(), "removeFile", path);
	vf::check(!file.exists() && !file.isRegularFile(), "exists", "after its removal");
	// Strings.
	{
		StringUri s(content);
		auto in = s.byteReadResource();
		sameBytes("string byteReadResource", readInPieces<char>(r, in->readStream()), content);
		StringUriByteReadResource a(s);
		StringUriByteReadResource b(std::move(a));
		sameBytes("moved string byteReadResource", toString(b.readStream()), content);
		StringUri w;
		{
			auto out = w.byteWriteResource();
			writeInPieces(r, out->writeStream(), content);
			if (r.chance(1, 2)) out->close();
		}
		sameBytes("string byteWriteResource", w.getString(), content);
	}
}

static void unicode(int64_t c, vf::Rng & r) {
	const std::string path = scratch() + "/u" + std::to_string(c);
	const std::u32string content = text(r, true);
	const std::string encoded = uni::encode(content);
	vf::distinct(encoded);
	File file(path);
	switch (r.below(3)) {
		case 0: {
			auto w = file.utf32To8WriteResource();
			writeInPieces(r, w->writeStream(), content);
			if (r.chance(1, 2)) w->close();
			break;
		}
		case 1: {
			FileUtf32To8WriteResource a(file);
			const size_t m = r.below(content.size() + 1);
			writeInPieces(r, a.writeStream(), content.substr(0, m));
			FileUtf32To8WriteResource b(std::move(a));
			writeInPieces(r, b.writeStream(), content.substr(m));
			break;
		}
		default: rawWrite(path, encoded); break;
	}
	sameBytes("written text", rawRead(path), encoded);
	auto in = file.utf8To32ReadResource();
	sameText("text read in pieces", readInPieces<char32_t>(r, in->readStream()), content);
	FileUtf8To32ReadResource a(file);
	FileUtf8To32ReadResource b(std::move(a));
	sameText("text read", toString32(b.readStream()), content);
	file.removeFile();
	vf::count("texts read back");
	StringUri s(encoded);
	auto sin = s.utf8To32ReadResource();
	sameText("string text read in pieces", readInPieces<char32_t>(r, sin->readStream()), content);
	StringUriUtf8To32ReadResource sa(s);
	StringUriUtf8To32ReadResource sb(std::move(sa));
	sameText("string text read", toString32(sb.readStream()), content);
	StringUri w;
	{
		StringUriUtf32To8WriteResource wa(w);
		const size_t m = r.below(content.size() + 1);
		writeInPieces(r, wa.writeStream(), content.substr(0, m));
		StringUriUtf32To8WriteResource wb(std::move(wa));
		writeInPieces(r, wb.writeStream(), content.substr(m));
		if (r.chance(1, 2)) wb.close();
	}
	sameBytes("string text written", w.getString(), encoded);
	if (c % 500 == 0) vf::sample(std::to_string(content.size()) + " code points " + show(encoded.substr(0, 40)));
	// Malformed bytes: whatever is delivered before the fault is the text before it.
	const std::string bad = encoded.substr(0, 200) + uni::hostile(r, 6);
	rawWrite(path, bad);
	std::string good;
	for (size_t m = 0; m < bad.size();) { uint32_t cp; int n = uni::sequence(bad, m, cp); if (!n) break; good += bad.substr(m, (size_t) n); m += (size_t) n; }
	auto bin = file.utf8To32ReadResource();
	std::u32string got;
	for (std::u32istream::int_type ch; got.size() < 1000 && (ch = bin->readStream().get()) != std::char_traits<char32_t>::eof();) got += (char32_t) ch;
	if (good.size() == bad.size()) sameText("text with a tail", got, uni::decode(bad));
	else { vf::check(got.size() <= bad.size(), "malformed-text", "more characters than bytes"); vf::count("malformed files read"); }
	file.removeFile();
}

static void trees(int64_t c, vf::Rng & r) {
	const std::string root = scratch() + "/t" + std::to_string(c);
	File top(root);
	vf::check(top.createDirectories() && !top.createDirectories(), "createDirectories", root);
	std::map<std::string, bool> all; // path -> is directory
	std::vector<std::string> dirs { root };
	std::map<std::string, std::string> contents;
	for (uint64_t n = r.below(25); n; --n) {
		const std::string parent = r.pick(dirs);
		const std::string name = "n" + std::to_string(all.size()) + r.of<std::string>({ "", ".txt", ".zip", " ", "\xC3\xA9", "..", ".d" });
		const std::string p = parent + "/" + name;
		File child = r.chance(1, 3) ? File(parent) / name : r.chance(1, 2) ? File(File(parent), name) : r.chance(1, 2) ? File(parent).getChildEntry(name) : File(parent, name);
		vf::check(child.toRawString() == p, "append", show(child.toRawString()) + " instead of " + show(p));
		if (r.chance(2, 5)) {
			// Several levels at once.
			const std::string deep = r.chance(1, 3) ? "/d1/d2" : "";
			File d(p + deep);
			vf::check(d.createDirectories(), "createDirectories", p + deep);
			all[p] = true; dirs.push_back(p);
			if (!deep.empty()) { all[p + "/d1"] = true; all[p + deep] = true; dirs.push_back(p + "/d1"); dirs.push_back(p + deep); }
			vf::check(d.isRegularDirectory() && !d.isRegularFile() && d.exists(), "directory state", p);
		} else {
			contents[p] = bytes(r).substr(0, 100);
			child.getByteWriteResource().writeStream() << contents[p];
			all[p] = false;
			vf::check(!child.isRegularDirectory() && child.isRegularFile() && child.exists(), "file state", p);
		}
		vf::check(child.getParentDirectory().toRawString() == parent, "parent", child.getParentDirectory().toRawString());
	}
	std::string shape;
	for (auto & kv : all) shape += kv.first.substr(root.size()) + (kv.second ? "/" : "") + "\n";
	vf::distinct(shape);
	if (c % 100 == 0) vf::sample(shape);
	auto compare = [&] (const char * what, const std::string & dir, bool recursive, const std::vector<std::string> & seen) {
		std::map<std::string, int> want, got;
		for (auto & kv : all) {
			if (kv.first.compare(0, dir.size() + 1, dir + "/") != 0) continue;
			if (!recursive && kv.first.find('/', dir.size() + 1) != std::string::npos) continue;
			want[kv.first]++;
		}
		for (auto & s : seen) got[s]++;
		vf::check(got == want, what, std::string(what) + " of " + dir + " gave " + std::to_string(seen.size()) + " entries, expected " + std::to_string(want.size()));
		vf::count("entries seen", seen.size());
	};
	for (int m = 0; m < 3; ++m) {
		const std::string dir = m ? r.pick(dirs) : root;
		File d(dir);
		std::vector<std::string> seen;
		auto it = d.recursiveFileIterator();
		while (it.hasNext()) { File f = it.next(); seen.push_back(f.toRawString()); vf::check(f.isRegularDirectory() == all[f.toRawString()], "entry kind", f.toRawString()); }
		compare("recursiveFileIterator", dir, true, seen);
		seen.clear();
		auto it2 = d.recursiveIterator();
		while (it2->hasNext()) { auto f = it2->next(); seen.push_back(f->toRawString()); }
		compare("recursiveIterator", dir, true, seen);
		seen.clear();
		auto it3 = d.fileIterator();
		while (it3.hasNext()) { File f = it3.next(); seen.push_back(f.toRawString()); if (!all[f.toRawString()]) sameBytes("content", Util::Files::readToString(f), contents[f.toRawString()]); }
		compare("fileIterator", dir, false, seen);
		seen.clear();
		auto it4 = d.iterator();
		while (it4->hasNext()) { auto f = it4->next(); seen.push_back(f->toRawString()); }
		compare("iterator", dir, false, seen);
		vf::check(d.isIterable() && d.isRecursivelyIterable(), "iterable", dir);
	}
	for (auto & kv : contents) {
		File f(kv.first);
		vf::check(!f.isIterable() && !f.isRecursivelyIterable(), "iterable", kv.first);
		try { f.iterator(); vf::violation("file-iterator", kv.first); } catch (const Exception::NotImplementedException &) {}
		vf::check(f.relative(top).toRawString() == kv.first.substr(root.size() + 1), "relative", f.relative(top).toRawString());
		break;
	}
	fs::remove_all(root);
	vf::check(!top.exists(), "exists", "after the tree was removed");
	vf::count("trees walked");
}

// A server on the loopback interface that answers every request with the wanted bytes.
struct Server {
	int fd = -1, port = 0;
	std::mutex m;
	std::string body, lastRequest;
	bool chunked = false;
	Server() {
		fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
		sockaddr_in a {};
		a.sin_family = AF_INET;
		a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		if (bind(fd, (sockaddr *) &a, sizeof a) != 0 || listen(fd, 16) != 0) { perror("server"); _exit(3); }
		socklen_t l = sizeof a;
		getsockname(fd, (sockaddr *) &a, &l);
		port = ntohs(a.sin_port);
		std::thread([this] { for (;;) { int s = accept(fd, nullptr, nullptr); if (s >= 0) serve(s); } }).detach();
	}
	void serve(int s) {
		std::string q;
		char b[4096];
		while (q.find("\r\n\r\n") == std::string::npos) { ssize_t n = recv(s, b, sizeof b, 0); if (n <= 0) break; q.append(b, (size_t) n); }
		std::string a;
		{
			std::lock_guard<std::mutex> l(m);
			lastRequest = q.substr(0, q.find("\r\n"));
			a = "HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Type: application/octet-stream\r\n";
			if (chunked) {
				a += "Transfer-Encoding: chunked\r\n\r\n";
				for (size_t k = 0, n; k < body.size(); k += n) {
					n = std::min(body.size() - k, (size_t) 1 + (k * 7919) % 5000);
					char h[32];
					snprintf(h, sizeof h, "%zx\r\n", n);
					a += h + body.substr(k, n) + "\r\n";
				}
				a += "0\r\n\r\n";
			} else a += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
		}
		for (size_t k = 0; k < a.size();) { ssize_t n = send(s, a.data() + k, std::min<size_t>(a.size() - k, 1000 + k % 7000), MSG_NOSIGNAL); if (n <= 0) break; k += (size_t) n; }
		shutdown(s, SHUT_WR);
		while (recv(s, b, sizeof b, 0) > 0) {}
		close(s);
	}
};
static void http(int64_t c, vf::Rng & r) {
	static Server & server = *new Server;
	const bool asText = r.chance(1, 2);
	std::u32string content32;
	std::string content;
	if (asText) { content32 = text(r, true); content = uni::encode(content32); } else content = bytes(r);
	vf::distinct(content);
	{ std::lock_guard<std::mutex> l(server.m); server.body = content; server.chunked = r.chance(1, 3); }
	std::string target = "/";
	for (uint64_t n = r.below(12); n; --n) target += r.of({ "a", "b/", "%20", "x", "-", "." });
	if (r.chance(1, 3)) target += "?q=1&r=2";
	Http url(std::string_view("http://127.0.0.1:" + std::to_string(server.port) + target));
	if (asText) {
		auto in = url.utf8To32ReadResource();
		sameText("HTTP text", readInPieces<char32_t>(r, in->readStream()), content32);
		HttpUtf8To32ReadResource a(url);
		HttpUtf8To32ReadResource b(std::move(a));
		sameText("moved HTTP text", toString32(b.readStream()), content32);
	} else {
		auto in = url.byteReadResource();
		sameBytes("HTTP bytes", readInPieces<char>(r, in->readStream()), content);
		HttpByteReadResource a(url);
		HttpByteReadResource b(std::move(a));
		sameBytes("moved HTTP bytes", toString(b.readStream()), content);
		vf::check(b.uri() == url, "resource-uri", url.toUriString());
	}
	{ std::lock_guard<std::mutex> l(server.m); vf::check(server.lastRequest == "GET " + target + " HTTP/1.1", "HTTP request", server.lastRequest + " for " + url.toUriString()); }
	vf::count("HTTP bodies read");
	if (c % 100 == 0) vf::sample(url.toUriString() + " " + std::to_string(content.size()) + " bytes");
	if (c % 20 == 0) {
		// Nobody listens there.
		int s = socket(AF_INET, SOCK_STREAM, 0);
		sockaddr_in a {};
		a.sin_family = AF_INET;
		a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		bind(s, (sockaddr *) &a, sizeof a);
		socklen_t l = sizeof a;
		getsockname(s, (sockaddr *) &a, &l);
		Http dead(std::string_view("http://127.0.0.1:" + std::to_string(ntohs(a.sin_port)) + "/"));
		try { dead.byteReadResource(); vf::violation("unreachable-read", "a resource of a server that does not exist was created"); }
		catch (const std::exception &) { vf::count("unreachable servers reported"); }
		close(s);
	}
}
static vf::Mode m1("contents", contents), m2("unicode", unicode), m3("trees", trees), m4("http", http);
