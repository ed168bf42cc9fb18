// HTTP server and clients: sites of every web application, made in code and from configuration texts, against
// clients on raw sockets; the life of a server; the HTTP client against raw servers.
#include "vf.hpp"
#include "http_config.hpp"
#include <Balau/Type/ToString.hpp>
#include <Balau/BalauConfig.hpp>
#undef BALAU_ENABLE_CURL
#include <Balau/Logging/Logger.hpp>
#include <Balau/Network/Http/Client/HttpClient.hpp>
#include <Balau/Network/Http/Client/WsClient.hpp>
#include <Balau/Network/Http/Server/HttpServer.hpp>
#include <Balau/Network/Http/Server/HttpSession.hpp>
#include <Balau/Network/Http/Server/HttpWebApps/CannedHttpWebApp.hpp>
#include <Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.hpp>
#include <Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.hpp>
#include <Balau/Network/Http/Server/HttpWebApps/RoutingHttpWebApp.hpp>
#include <Balau/System/SystemClock.hpp>
#include <Balau/System/ThreadName.hpp>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <condition_variable>
#include <csignal>
#include <optional>
#include <thread>

using namespace Balau;
using namespace Balau::Network;
using namespace Balau::Network::Http;
using namespace Balau::Network::Http::HttpWebApps;
using std::string;
using std::vector;
using vf::Rng;

namespace {

// ---------------------------------------------------------------- the address and the files of this process

const string & address() {
	static const string a = [] {
		uint64_t h = vf::mix(getpid(), 77);
		return "127." + std::to_string(11 + h % 200) + "." + std::to_string(h / 256 % 250 + 1) + "." + std::to_string(h / 65536 % 250 + 1);
	}();
	return a;
}
unsigned short nextPort() {
	static unsigned short p = 0;
	p = (unsigned short) (p % 20000 + 1);
	return (unsigned short) (9000 + p);
}
const char * const SECRET = "SECRET-OUTSIDE-OF-THE-ROOT";
void put(const string & path, const string & text) { std::ofstream o(path, std::ios::binary); o << text; }
struct Tree {
	string base, root;
	vector<string> files, dirs, odd; // with leading slash
	std::map<string, string> content;
};
Tree & tree() {
	static Tree * t = [] {
		auto * n = new Tree;
		n->base = vf::st().scratch + "/http-" + std::to_string(getpid());
		n->root = n->base + "/root";
		mkdir(n->base.c_str(), 0755);
		mkdir(n->root.c_str(), 0755);
		put(n->base + "/secret.txt", SECRET);
		put(n->base + "/rootsecret.txt", SECRET);
		Logger::configure(". {\n\tlevel = info\n\tstream = file://" + n->base + "/log.txt\n}\n");
		Rng r(4711);
		for (string d : { "/a", "/a/b", "/docs", "/docs/a", "/x", "/a/b/x", "/empty" }) { n->dirs.push_back(d); mkdir((n->root + d).c_str(), 0755); }
		auto add = [&] (const string & f, size_t size) {
			string c;
			while (c.size() < size) c += (char) r.below(256);
			n->content[f] = c;
			n->files.push_back(f);
			put(n->root + f, c);
		};
		const size_t sizes[] = { 0, 1, 2, 100, 1000, 4095, 4096, 4097, 8192, 70000, 300000 };
		size_t k = 0;
		for (string d : { "", "/a", "/a/b", "/docs", "/x", "/a/b/x" })
			for (string f : { "index.html", "b.txt", "b.css", "pic.PNG", "noext", "tar.gz", "odd.unknown", "dot.", ".hidden", "with space.txt" , "new.json", "st.yle.Js" }) {
				if (r.chance(1, 3) && f != "index.html") continue;
				if (d == "/x" && f == "index.html") continue;
				add(d + "/" + f, sizes[k++ % 11]);
			}
		add("/x/home.htm", 321);
		add("/a/home.htm", 322);
		mkfifo((n->root + "/a/pipe").c_str(), 0644);
		mkdir((n->root + "/docs/index.html.d").c_str(), 0755);
		mkdir((n->root + "/docs/a/index.html").c_str(), 0755); // an index that is a directory
		n->odd = { "/a/pipe", "/docs/index.html.d", "/nothing", "/a/nothing.html", "/docs/a/", "/a/b.txt/", "/a/b.txt/x" };
		return n;
	}();
	return *t;
}

// ---------------------------------------------------------------- raw sockets

string trace(const string & s) { return vf::show(s, 500); }
int dial(unsigned short port) {
	int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
	sockaddr_in a {};
	a.sin_family = AF_INET;
	a.sin_port = htons(port);
	inet_pton(AF_INET, address().c_str(), &a.sin_addr);
	if (connect(fd, (sockaddr *) &a, sizeof a) != 0) { int e = errno; close(fd); errno = e; return -1; }
	int one = 1;
	setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
	return fd;
}
void reset(int fd) {
	linger l { 1, 0 };
	setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
	close(fd);
}
bool sendAll(int fd, const string & s, size_t piece = 1 << 20) {
	for (size_t n = 0; n < s.size();) {
		ssize_t k = send(fd, s.data() + n, std::min(piece, s.size() - n), MSG_NOSIGNAL);
		if (k <= 0) return false;
		n += (size_t) k;
	}
	return true;
}
string lower(string s) { for (auto & c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
struct Message {
	bool ok = false;           // complete
	string start;              // the first line
	std::multimap<string, string> fields;
	string body;
	bool framed = false;       // the end was known without the end of the connection
	bool eof = false;
	string text;               // what was received
	std::optional<string> field(const string & n) const {
		auto i = fields.find(n);
		return i == fields.end() ? std::nullopt : std::optional<string>(i->second);
	}
	int status() const { return start.size() > 12 ? atoi(start.c_str() + 9) : 0; }
};
struct Reader {
	int fd;
	string buffer;
	bool eof = false;
	explicit Reader(int f) : fd(f) {}
	bool more() {
		if (eof) return false;
		char b[16384];
		ssize_t k = recv(fd, b, sizeof b, 0);
		if (k <= 0) { eof = true; return false; }
		buffer.append(b, (size_t) k);
		return true;
	}
	// A request or a response.
	Message read(bool response, bool head = false) {
		Message m;
		size_t e;
		while ((e = buffer.find("\r\n\r\n")) == string::npos) if (!more()) { m.text = buffer; m.eof = true; return m; }
		string h = buffer.substr(0, e + 2);
		m.text = h;
		buffer.erase(0, e + 4);
		size_t p = h.find("\r\n");
		m.start = h.substr(0, p);
		for (p += 2; p < h.size();) {
			size_t q = h.find("\r\n", p);
			string line = h.substr(p, q - p);
			p = q + 2;
			size_t c = line.find(':');
			if (c == string::npos) return m;
			size_t v = c + 1;
			while (v < line.size() && line[v] == ' ') ++v;
			m.fields.emplace(lower(line.substr(0, c)), line.substr(v));
		}
		auto te = m.field("transfer-encoding"), cl = m.field("content-length");
		if (response && head) { m.framed = (bool) cl || (bool) te; m.ok = true; return m; }
		if (te) {
			for (;;) {
				size_t q;
				while ((q = buffer.find("\r\n")) == string::npos) if (!more()) return m;
				size_t n = strtoul(buffer.c_str(), nullptr, 16);
				buffer.erase(0, q + 2);
				while (buffer.size() < n + 2) if (!more()) return m;
				m.body += buffer.substr(0, n);
				buffer.erase(0, n + 2);
				if (!n) break;
			}
			m.framed = m.ok = true;
		} else if (cl) {
			size_t n = strtoul(cl->c_str(), nullptr, 10);
			while (buffer.size() < n) if (!more()) { m.eof = true; m.text += buffer; return m; }
			m.body = buffer.substr(0, n);
			buffer.erase(0, n);
			m.framed = m.ok = true;
		} else if (!response) {
			m.framed = m.ok = true;
		} else {
			while (more()) {}
			m.body = std::move(buffer);
			buffer.clear();
			m.ok = true;
			m.eof = true;
		}
		return m;
	}
};

// The open sockets of the process, and its threads.
size_t sockets() {
	size_t n = 0;
	DIR * d = opendir("/proc/self/fd");
	while (auto * e = readdir(d)) {
		char b[64];
		ssize_t k = readlinkat(dirfd(d), e->d_name, b, sizeof b - 1);
		if (k > 7 && !strncmp(b, "socket:", 7)) ++n;
	}
	closedir(d);
	return n;
}
size_t handles() {
	size_t n = 0;
	DIR * d = opendir("/proc/self/fd");
	while (readdir(d)) ++n;
	closedir(d);
	return n;
}
std::map<int, string> threads() {
	std::map<int, string> m;
	DIR * d = opendir("/proc/self/task");
	while (auto * e = readdir(d)) {
		int t = atoi(e->d_name);
		if (t <= 0) continue;
		std::ifstream f("/proc/self/task/" + string(e->d_name) + "/comm");
		string s;
		std::getline(f, s);
		m[t] = s;
	}
	closedir(d);
	return m;
}
// The threads that start while this lives are watched by the quiescence monitor.
struct WatchNew {
	std::map<int, string> before = threads();
	std::set<int> added;
	void add() {
		for (auto & t : threads()) if (!before.count(t.first)) {
			std::lock_guard<std::mutex> l(vf::watchedMutex());
			vf::watched().insert(t.first);
			added.insert(t.first);
		}
	}
	~WatchNew() {
		std::lock_guard<std::mutex> l(vf::watchedMutex());
		for (int t : added) vf::watched().erase(t);
	}
};
bool settle(const std::function<bool ()> & f) { return vf::awaitOrStuck(f, 4.0); }

// ---------------------------------------------------------------- what the handlers observe

struct Handled {
	std::mutex m;
	std::map<string, int> calls; // X-Id of the request
	vector<string> strange;
} handled;
struct Barrier {
	std::mutex m;
	std::condition_variable c;
	size_t want = 0, here = 0;
	std::multiset<string> names; // of the workers
} barrier;

string echoText(const string & method, const string & target, const string & id, const string & body) {
	return method + " " + target + " " + id + "\n" + body;
}
struct Echo : HttpWebApp {
	int tag;
	explicit Echo(int t) : tag(t) {}
	void note(const StringRequest & q, const std::map<string, string> & v) {
		std::lock_guard<std::mutex> l(handled.m);
		++handled.calls[string(q["X-Id"].data(), q["X-Id"].size())];
		if (!v.empty()) handled.strange.push_back("a new request has variables");
	}
	void answer(HttpSession & s, const StringRequest & q, std::map<string, string> & v) {
		note(q, v);
		if (q["X-Barrier"] == "1") {
			std::unique_lock<std::mutex> l(barrier.m);
			++barrier.here;
			barrier.names.insert(System::ThreadName::getName());
			barrier.c.notify_all();
			barrier.c.wait(l, [] { return barrier.here >= barrier.want; });
		}
		Response<StringBody> p { Status::ok, q.version() };
		p.set(Field::server, s.configuration().serverId);
		p.set(Field::content_type, "text/x-echo-" + std::to_string(tag));
		p.body() = echoText(string(q.method_string()), string(q.target()), string(q["X-Id"]), q.body());
		p.keep_alive(q.keep_alive());
		p.prepare_payload();
		s.sendResponse(std::move(p));
	}
	void handleGetRequest(HttpSession & s, const StringRequest & q, std::map<string, string> & v) override { answer(s, q, v); }
	void handlePostRequest(HttpSession & s, const StringRequest & q, std::map<string, string> & v) override { answer(s, q, v); }
	void handleHeadRequest(HttpSession & s, const StringRequest & q, std::map<string, string> & v) override {
		note(q, v);
		auto p = createOkHeadResponse(s, q);
		p.set(Field::content_type, "text/x-echo-" + std::to_string(tag));
		s.sendResponse(std::move(p));
	}
};
struct Thrower : HttpWebApp {
	static void fail(const StringRequest & q) {
		{ std::lock_guard<std::mutex> l(handled.m); ++handled.calls[string(q["X-Id"].data(), q["X-Id"].size())]; }
		if (q.target().size() % 2) throw std::runtime_error("of the handler");
		throw 42;
	}
	void handleGetRequest(HttpSession &, const StringRequest & q, std::map<string, string> &) override { fail(q); }
	void handlePostRequest(HttpSession &, const StringRequest & q, std::map<string, string> &) override { fail(q); }
	void handleHeadRequest(HttpSession &, const StringRequest & q, std::map<string, string> &) override { fail(q); }
};

// ---------------------------------------------------------------- sites

struct Redirect {
	string regex, path;
	int code = 302, position = 1 << 30;
	std::function<std::optional<string> (const string &)> to; // the reference
};
struct AppModel {
	enum Kind { Canned, Failing, Files, Redirects, EchoApp, Throws } kind = Failing;
	string mime, get, post;
	vector<string> index;
	vector<Redirect> redirects;
	int tag = 0;
};
struct Expect {
	int status = 404;
	std::optional<string> body;   // of a request that is not HEAD
	std::optional<string> type;   // "" for none
	std::optional<string> location;
	std::optional<size_t> length; // of the body that a HEAD request is about
	string what;
	bool any4or5 = false;
};
struct Node { vector<string> comps; int app[3] = { -1, -1, -1 }; };
struct Site {
	string id = "Balau test", cookie = "session";
	bool routing = true;
	std::optional<std::map<string, string>> mime;
	vector<AppModel> apps;
	vector<Node> nodes;
	size_t workers = 1;
	bool configured = false;
};
const std::map<string, string> defaultTypes = { { "html", "text/html" }, { "htm", "text/html" }, { "txt", "text/plain" }, { "css", "text/css" }, { "png", "image/png" },
	{ "gz", "application/x-gzip" }, { "json", "application/json" }, { "js", "application/javascript" } };

vector<string> componentsOf(const string & path) {
	vector<string> v;
	string c;
	for (char x : path + "/") {
		if (x != '/') { c += x; continue; }
		if (!c.empty()) v.push_back(c);
		c.clear();
	}
	return v;
}
string typeOf(const Site & s, const string & path) {
	auto p = path.rfind('.');
	if (p == string::npos) return "";
	auto & m = s.mime ? *s.mime : defaultTypes;
	auto i = m.find(lower(path.substr(p + 1)));
	return i == m.end() ? "" : i->second;
}
const AppModel * route(const Site & s, const string & method, const string & path) {
	if (!s.routing) return &s.apps[0];
	int m = method == "GET" ? 0 : method == "HEAD" ? 1 : 2;
	auto c = componentsOf(path);
	for (size_t n = c.size() + 1; n-- > 0;) for (auto & d : s.nodes)
		if (d.comps.size() == n && std::equal(d.comps.begin(), d.comps.end(), c.begin()) && d.app[m] >= 0) return &s.apps[(size_t) d.app[m]];
	return nullptr;
}
Expect expectation(const Site & s, const string & method, const string & target) {
	Expect e;
	if (target.empty() || target[0] != '/' || target.find("..") != string::npos) { e.status = 400; e.what = "illegal path"; return e; }
	if (method != "GET" && method != "HEAD" && method != "POST") { e.status = 400; e.what = "unsupported method"; return e; }
	string path = target.substr(0, target.find('?'));
	auto * a = route(s, method, path);
	if (!a) { e.what = "no handler"; return e; }
	switch (a->kind) {
		case AppModel::Canned: {
			e.what = "canned";
			if (method == "HEAD") { e.status = 200; e.type = a->mime; e.length = a->get.size(); break; }
			const string & b = method == "GET" ? a->get : a->post;
			if (b.empty()) { e.status = 400; e.what = "canned without body"; break; }
			e.status = 200;
			e.body = b;
			e.type = a->mime;
			break;
		}
		case AppModel::Failing: e.what = "failing"; break;
		case AppModel::Files: {
			e.what = "no file";
			if (method == "POST") break;
			for (auto & c : componentsOf(path)) if (c.size() > 255) { e.any4or5 = true; return e; }
			if (path.size() > 3000) { e.any4or5 = true; return e; }
			string file = tree().root + path;
			auto regular = [] (const string & f) { struct stat b; return stat(f.c_str(), &b) == 0 && S_ISREG(b.st_mode); };
			if (path.back() == '/') {
				string found;
				for (auto & i : a->index) if (regular(file + "/" + i)) { found = file + "/" + i; break; }
				if (found.empty()) break;
				file = found;
				e.what = "index";
			} else e.what = "file";
			if (!regular(file)) { e.what = "no file"; break; }
			e.status = 200;
			std::ifstream f(file, std::ios::binary);
			std::stringstream b;
			b << f.rdbuf();
			e.body = b.str();
			e.length = e.body->size();
			e.type = typeOf(s, file);
			break;
		}
		case AppModel::Redirects: {
			e.what = "no redirection";
			for (auto & d : a->redirects) {
				auto to = d.to(target);
				if (!to) continue;
				e.status = d.code == 301 ? 301 : 302;
				e.location = *to;
				e.body = "";
				e.what = "redirection";
				break;
			}
			break;
		}
		case AppModel::EchoApp: {
			e.what = "handler";
			e.status = 200;
			e.type = "text/x-echo-" + std::to_string(a->tag);
			break;
		}
		case AppModel::Throws: e.what = "handler that throws"; e.status = 500; break;
	}
	return e;
}

const vector<string> alphabet = { "a", "b", "docs", "x", "index.html", "b.txt", "old", "swap" };
vector<string> randomComponents(Rng & r, size_t max) {
	vector<string> v;
	for (size_t n = r.below(max + 1); n--;) v.push_back(alphabet[r.below(alphabet.size())]);
	return v;
}
string joined(const vector<string> & c) { string s; for (auto & x : c) s += "/" + x; return s.empty() ? "/" : s; }

vector<Redirect> randomRedirects(Rng & r) {
	vector<Redirect> all;
	auto starts = [] (const string & s, const string & p) { return s.compare(0, p.size(), p) == 0; };
	all.push_back({ "^/old/(.*)$", "/new/$1", 302, 0, [=] (const string & t) -> std::optional<string> { if (!starts(t, "/old/")) return {}; return "/new/" + t.substr(5); } });
	all.push_back({ "^/swap/([a-z]*)/([a-z]*)$", "/done/$2/$1/end", 302, 0, [=] (const string & t) -> std::optional<string> {
		if (!starts(t, "/swap/")) return {};
		auto p = t.find('/', 6);
		if (p == string::npos) return {};
		string x = t.substr(6, p - 6), y = t.substr(p + 1);
		for (char c : x + y) if (c < 'a' || c > 'z') return {};
		return "/done/" + y + "/" + x + "/end";
	} });
	all.push_back({ "^/old/exact$", "https://example.com/elsewhere?q", 302, 0, [=] (const string & t) -> std::optional<string> { if (t != "/old/exact") return {}; return "https://example.com/elsewhere?q"; } });
	all.push_back({ "^/(.*)[.]txt$", "/pages/$1/$1.html", 302, 0, [=] (const string & t) -> std::optional<string> {
		if (t.size() < 5 || t.compare(t.size() - 4, 4, ".txt")) return {};
		string n = t.substr(1, t.size() - 5);
		return "/pages/" + n + "/" + n + ".html";
	} });
	vector<Redirect> use;
	vector<int> positions = { 1, 2, 3, 7, 10 };
	for (auto & d : all) {
		if (r.chance(1, 4)) continue;
		d.code = r.chance(1, 8) ? 307 : r.chance(1, 2) ? 301 : 302; // other codes are replaced by the default
		// Those without position come after those with one; which of them comes first is not said, so they match different paths.
		const bool general = &d == &all[0];
		const bool overlaps = std::any_of(use.begin(), use.end(), [&] (auto & o) { return o.position == 1 << 30 && (o.regex == all[0].regex ? d.regex != all[1].regex : general && o.regex != all[1].regex); });
		if (!overlaps && r.chance(1, 2)) d.position = 1 << 30;
		else { size_t k = r.below(positions.size()); d.position = positions[k]; positions.erase(positions.begin() + (long) k); }
		use.push_back(d);
	}
	std::sort(use.begin(), use.end(), [] (auto & x, auto & y) { return x.position < y.position; });
	return use;
}

string bodyText(Rng & r, size_t n) { string s; while (s.size() < n) s += (char) (r.chance(1, 8) ? r.below(256) : 'a' + r.below(26)); return s; }

std::shared_ptr<System::Clock> theClock() { return std::make_shared<System::SystemClock>(); }

struct Running {
	Site site;
	Configured configured;
	std::shared_ptr<HttpServer> server;
	unsigned short port = 0;
};

// A site made in code.
Running siteInCode(Rng & r) {
	Running u;
	Site & s = u.site;
	u.port = nextPort();
	s.workers = 1 + r.below(4);
	s.id = "Server " + std::to_string(r.below(100));
	s.cookie = r.chance(1, 2) ? "session" : "sid" + std::to_string(r.below(10));
	auto types = MimeTypes::defaultMimeTypes;
	if (r.chance(1, 3)) {
		s.mime = std::map<string, string> { { "txt", "text/x-plain" }, { "html", "text/x-html" }, { "png", "image/x-png" } };
		types = std::make_shared<MimeTypes>(std::unordered_map<string, string>(s.mime->begin(), s.mime->end()));
	}
	vector<std::shared_ptr<HttpWebApp>> apps;
	auto make = [&] (int kind) {
		AppModel a;
		a.kind = (AppModel::Kind) kind;
		switch (a.kind) {
			case AppModel::Canned: {
				a.mime = "text/x-canned";
				a.get = r.chance(1, 5) ? "" : bodyText(r, 1 + r.below(3000));
				a.post = r.chance(1, 3) ? "" : bodyText(r, 1 + r.below(300));
				apps.push_back(std::make_shared<CannedHttpWebApp>(a.mime, a.get, a.post));
				break;
			}
			case AppModel::Files: {
				a.index = { r.chance(1, 2) ? "index.html" : "home.htm" };
				apps.push_back(std::make_shared<FileServingHttpWebApp>(Resource::File(tree().root), a.index[0]));
				break;
			}
			case AppModel::EchoApp: a.tag = (int) apps.size(); apps.push_back(std::make_shared<Echo>(a.tag)); break;
			case AppModel::Throws: apps.push_back(std::make_shared<Thrower>()); break;
			default: a.kind = AppModel::Failing; apps.push_back(std::make_shared<FailingHttpWebApp>()); break;
		}
		s.apps.push_back(a);
		return (int) apps.size() - 1;
	};
	const int kinds[] = { AppModel::Canned, AppModel::Failing, AppModel::Files, AppModel::EchoApp, AppModel::Throws, AppModel::EchoApp, AppModel::Files };
	auto endpoint = makeEndpoint(address(), u.port);
	string prefix = r.chance(1, 2) ? "" : "w";
	if (r.chance(1, 8)) { // files only
		s.routing = false;
		make(AppModel::Files);
		u.server = std::make_shared<HttpServer>(theClock(), s.id, endpoint, prefix, s.workers, Resource::File(tree().root), s.apps[0].index[0], "balau.test", s.cookie, types, false);
		return u;
	}
	if (r.chance(1, 6)) { // one web application
		s.routing = false;
		make(kinds[r.below(7)]);
		u.server = std::make_shared<HttpServer>(theClock(), s.id, endpoint, prefix, s.workers, apps[0], nullptr, "balau.test", s.cookie, types, false);
		return u;
	}
	RoutingHttpWebApp::Routing routing;
	for (size_t n = 1 + r.below(6); n--;) {
		Node d;
		d.comps = randomComponents(r, 3);
		if (std::any_of(s.nodes.begin(), s.nodes.end(), [&] (auto & x) { return x.comps == d.comps; })) continue;
		int all = make(kinds[r.below(7)]);
		for (int & a : d.app) a = all;
		if (r.chance(1, 3)) for (int & a : d.app) a = r.chance(1, 3) ? -1 : make(kinds[r.below(7)]);
		vector<std::string_view> views(d.comps.begin(), d.comps.end());
		auto & node = routing.findOrAdd(
			views, [] (auto & l, auto & x) { return std::get<0>(l) == x; },
			[] (auto & c) { return RoutingHttpWebApp::Value(c, std::shared_ptr<HttpWebApp>(), std::shared_ptr<HttpWebApp>(), std::shared_ptr<HttpWebApp>()); });
		auto at = [&] (int k) { return k < 0 ? std::shared_ptr<HttpWebApp>() : apps[(size_t) k]; };
		std::get<1>(node.value) = at(d.app[0]);
		std::get<2>(node.value) = at(d.app[1]);
		std::get<3>(node.value) = at(d.app[2]);
		s.nodes.push_back(d);
	}
	u.server = std::make_shared<HttpServer>(theClock(), s.id, endpoint, prefix, s.workers, std::make_shared<RoutingHttpWebApp>(std::move(routing)), nullptr, "balau.test", s.cookie, types, false);
	return u;
}

// A site made from a configuration text; nothing when it has one location twice.
std::optional<Running> siteFromText(Rng & r) {
	Running u;
	Site & s = u.site;
	s.configured = true;
	u.port = nextPort();
	string t = "http.server {\n";
	auto line = [&] (int depth, const string & x) { t += string((size_t) depth, '\t') + x + "\n"; };
	s.id = "Configured server " + std::to_string(r.below(100));
	line(1, "server.id = " + s.id);
	line(1, "listen = " + address() + ":" + std::to_string(u.port));
	if (r.chance(2, 3)) { s.workers = 1 + r.below(4); line(1, "worker.count = " + std::to_string(s.workers)); }
	if (r.chance(1, 2)) { s.cookie = "sid" + std::to_string(r.below(10)); line(1, "session-cookie-name = " + s.cookie); }
	if (r.chance(1, 2)) line(1, "thread.name.prefix = cw");
	if (r.chance(2, 3)) {
		s.mime = std::map<string, string> {};
		line(1, "mime.types {");
		const char * blank[] = { " ", "  ", "\t", " \t " };
		for (auto & m : vector<std::pair<string, vector<string>>> { { "text/html", { "html", "htm" } }, { "text/x-plain", { "TXT", "text", "gz" } }, { "image/png", { "Png" } }, { "text/css", { "css" } } }) {
			if (r.chance(1, 5)) continue;
			string v;
			for (auto & x : m.second) { v += (v.empty() ? "" : blank[r.below(4)]) + x; (*s.mime)[lower(x)] = m.first; }
			line(2, m.first + " = " + v);
		}
		line(1, "}");
	}
	bool duplicate = false;
	auto locations = [&] (int app) {
		string v;
		for (size_t n = 1 + r.below(3); n--;) {
			Node d;
			d.comps = randomComponents(r, 3);
			if (r.chance(1, 3)) d.comps.clear();
			bool again = std::any_of(s.nodes.begin(), s.nodes.end(), [&] (auto & x) { return x.comps == d.comps; });
			if (again && !r.chance(1, 8)) continue;
			duplicate |= again;
			for (int & a : d.app) a = app;
			s.nodes.push_back(d);
			v += (v.empty() ? "" : r.chance(1, 2) ? " " : "  ") + joined(d.comps) + (d.comps.empty() || r.chance(1, 2) ? "" : "/");
		}
		return v;
	};
	line(1, "http {");
	for (int kind : { AppModel::Canned, AppModel::Failing, AppModel::Files, AppModel::Redirects }) {
		if (r.chance(1, 4)) continue;
		AppModel a;
		a.kind = (AppModel::Kind) kind;
		const char * name[] = { "canned", "failing", "files", "redirections" };
		string where = r.chance(1, 8) ? "-" : locations((int) s.apps.size());
		if (where.empty()) continue;
		line(2, string(name[kind]) + " {");
		if (where != "-") line(3, "location = " + where); // without a location it is not used
		switch (a.kind) {
			case AppModel::Canned:
				a.mime = "application/x-canned";
				a.get = "The canned body number " + std::to_string(r.below(1000));
				a.post = r.chance(1, 2) ? "" : "<p>posted</p>";
				line(3, "mime.type = " + a.mime);
				line(3, "get.body = " + a.get);
				line(3, "post.body = " + a.post);
				break;
			case AppModel::Files:
				a.index = { "index.html" };
				line(3, "root = file:" + tree().root);
				switch (r.below(3)) {
					case 0: break;
					case 1: a.index = { "home.htm" }; line(3, "index = home.htm"); break;
					default: a.index = { "none.html", "home.htm", "index.html" }; line(3, "index = none.html home.htm  index.html"); break;
				}
				break;
			case AppModel::Redirects: {
				a.redirects = randomRedirects(r);
				auto shuffled = a.redirects;
				for (size_t i = shuffled.size(); i > 1; --i) std::swap(shuffled[i - 1], shuffled[r.below(i)]);
				line(3, "matches {");
				for (auto & d : shuffled) line(4, d.regex + " = " + (d.position < 1 << 30 ? std::to_string(d.position) + " " + std::to_string(d.code) + " "
					: d.code != 302 || r.chance(1, 2) ? std::to_string(d.code) + " " : "") + d.path);
				line(3, "}");
				break;
			}
			default: break;
		}
		line(2, "}");
		s.apps.push_back(a);
	}
	line(1, "}");
	t += "}\n";
	try {
		u.configured = configuredServer(t);
		u.server = u.configured.server;
	} catch (const Exception::NetworkException & e) {
		if (!duplicate) vf::violation("P30/configuration", "the configuration was refused: " + string(e.what()) + "\n" + t);
		else vf::count("duplicate locations refused");
		return {};
	} catch (const std::exception & e) {
		vf::violation("P30/configuration", "the configuration was refused: " + string(e.what()) + "\n" + t);
		return {};
	}
	if (duplicate) vf::violation("P30/configuration", "a location with two web applications was accepted:\n" + t);
	vf::count("configured servers");
	if (u.server->getPort() != u.port || u.server->getAddress() != address()) vf::violation("P30/configuration", "the server listens on " + u.server->getAddress() + ":" + std::to_string(u.server->getPort()));
	return u;
}

// ---------------------------------------------------------------- requests

struct Req {
	string method = "GET", target = "/", version = "1.1", id, body;
	bool chunked = false, close = false, malformed = false;
	int cookie = 0, mostCalls = 1;
	string expectId;       // the session that the cookie names
	string bytes;
	Expect e;
};
std::mutex idsMutex;
std::set<string> ids;

string randomTarget(Rng & r, const Site & s) {
	auto & t = tree();
	string p;
	switch (r.below(12)) {
		case 0: case 1: case 2: p = t.files[r.below(t.files.size())]; if (p.find(' ') != string::npos) p = "/a/b.txt"; break;
		case 3: p = t.dirs[r.below(t.dirs.size())] + (r.chance(2, 3) ? "/" : ""); break;
		case 4: p = t.odd[r.below(t.odd.size())]; break;
		case 5: p = "/old/" + joined(randomComponents(r, 2)).substr(1); break;
		case 6: p = "/swap/" + alphabet[r.below(4)] + "/" + alphabet[r.below(4)]; break;
		case 7: { if (s.nodes.empty()) { p = "/"; break; } auto & n = s.nodes[r.below(s.nodes.size())]; p = joined(n.comps); auto more = randomComponents(r, 2); if (!more.empty()) p = (p == "/" ? "" : p) + joined(more); break; }
		case 8: p = r.chance(1, 2) ? "/old/exact" : "/"; break;
		case 9: { string c(1 + r.below(600), 'q'); p = "/a/" + c; if (r.chance(1, 2)) p += "/" + c; break; }
		default: p = joined(randomComponents(r, 4)); break;
	}
	if (r.chance(1, 6)) p += "/";
	if (r.chance(1, 12)) p = "/" + p;
	if (r.chance(1, 12)) p += r.chance(1, 2) ? "//" : "/./";
	if (r.chance(1, 5)) p += r.chance(1, 2) ? "?" : "?a=b/c&d=%41.txt";
	if (r.chance(1, 14)) {
		const char * hostile[] = { "/../secret.txt", "/a/../../secret.txt", "/..", "..", "/a/..", "", "*", "secret.txt", "http://h/a", "/a/b/x?../..", "/%2e%2e/secret.txt", "/a/%2e%2e/%2e%2e/secret.txt",
			"/..%2fsecret.txt", "/a/.../b", "/a/b..c", "//../../secret.txt", "secret.txt?", "/....//secret.txt", "/.%2e/secret.txt", "/a\\..\\..\\secret.txt" };
		p = hostile[r.below(sizeof hostile / sizeof *hostile)];
	}
	return p;
}

Req randomRequest(Rng & r, const Site & s, const string & own) {
	Req q;
	static std::atomic<uint64_t> number { 0 };
	q.id = "r" + std::to_string(++number);
	const char * methods[] = { "GET", "GET", "GET", "GET", "HEAD", "HEAD", "POST", "POST", "PUT", "DELETE", "OPTIONS", "FOO", "PATCH" };
	q.method = methods[r.below(r.chance(1, 3) ? 13 : 8)];
	do q.target = randomTarget(r, s); while (q.target.empty());
	if (r.chance(1, 5)) q.version = "1.0";
	if (q.method == "POST" || r.chance(1, 10)) q.body = bodyText(r, r.chance(1, 30) ? 200000 + r.below(600000) : r.chance(1, 2) ? r.below(200) : r.below(20000));
	if (q.method == "HEAD") q.body.clear();
	q.chunked = !q.body.empty() && q.version == "1.1" && r.chance(1, 4);
	q.close = r.chance(1, 8);
	string h = q.method + " " + q.target + " HTTP/" + q.version + "\r\n";
	vector<string> fields = { "Host: " + address(), "X-Id: " + q.id };
	if (q.close) fields.push_back("Connection: close");
	else if (q.version == "1.0") { if (r.chance(1, 2)) fields.push_back(r.chance(1, 2) ? "Connection: keep-alive" : "connection: Keep-Alive"); else q.close = true; }
	else if (r.chance(1, 4)) fields.push_back("Connection: keep-alive");
	q.cookie = (int) r.below(8);
	string other;
	{ std::lock_guard<std::mutex> l(idsMutex); if (!ids.empty()) other = r.chance(1, 2) ? *ids.begin() : *ids.rbegin(); }
	string c = s.cookie + "=";
	switch (q.cookie) {
		case 0: if (!own.empty()) { fields.push_back("Cookie: " + c + own); q.expectId = own; } break;
		case 1: if (!own.empty()) { fields.push_back("Cookie: a=b; " + c + own + "; theme=dark"); q.expectId = own; } break;
		case 2: if (!other.empty()) { fields.push_back("Cookie: " + c + other); q.expectId = other; } break;
		case 3: fields.push_back("Cookie: " + c + "unknown"); break;
		case 4: fields.push_back(string("Cookie: ") + (r.chance(1, 2) ? "=" : "; ; =; a==b; session; ")); break;
		case 5: if (!own.empty()) fields.push_back("Cookie: x" + c + own); break;
		default: break;
	}
	if (r.chance(1, 3)) fields.push_back("User-Agent: {} %s \"quoted\"");
	if (r.chance(1, 20)) for (size_t n = r.below(40); n--;) fields.push_back("X-Filler-" + std::to_string(n) + ": " + string(r.below(80), 'f'));
	if (q.chunked) fields.push_back("Transfer-Encoding: chunked");
	else if (!q.body.empty() || (q.method == "POST" && r.chance(1, 2))) fields.push_back("Content-Length: " + std::to_string(q.body.size()));
	for (size_t i = fields.size(); i > 1; --i) std::swap(fields[i - 1], fields[r.below(i)]);
	for (auto & f : fields) h += f + "\r\n";
	h += "\r\n";
	if (q.chunked) {
		char b[32];
		for (size_t p = 0; p < q.body.size();) {
			size_t n = std::min(q.body.size() - p, 1 + (size_t) r.below(r.chance(1, 2) ? 50000 : 5000));
			snprintf(b, sizeof b, r.chance(1, 2) ? "%zx\r\n" : "%zX\r\n", n);
			h += b + q.body.substr(p, n) + "\r\n";
			p += n;
		}
		h += "0\r\n\r\n";
	} else h += q.body;
	q.bytes = h;
	q.e = expectation(s, q.method, q.target);
	if (q.e.what == "handler" && q.method != "HEAD") q.e.body = echoText(q.method, q.target, q.id, q.body);
	return q;
}

Req malformedRequest(Rng & r) {
	Req q;
	static std::atomic<uint64_t> number { 0 };
	q.id = "m" + std::to_string(++number);
	q.malformed = true;
	string x = "X-Id: " + q.id + "\r\n";
	switch (r.below(9)) {
		case 0: q.bytes = "GARBAGE\r\n" + x + "\r\n"; break;
		case 1: q.bytes = "GET / HTTP/9.x\r\n" + x + "\r\n"; break;
		case 2: q.bytes = "GET / HTTP/1.1\r\n" + x + "No colon here\r\n\r\n"; break;
		case 3: q.bytes = "POST /a HTTP/1.1\r\n" + x + "Content-Length: many\r\n\r\nbody"; break;
		case 4: q.bytes = "POST /a HTTP/1.1\r\n" + x + "Content-Length: 30000000\r\n\r\nbody"; break; // over the limit
		case 5: q.bytes = "POST /a HTTP/1.1\r\n" + x + "Transfer-Encoding: chunked\r\n\r\nzz\r\n"; break;
		case 6: q.bytes = "GET /" + string(20000, 'y') + " HTTP/1.1\r\n" + x + "\r\n"; break;
		case 7: q.bytes = "GET / HTTP/1.1\r\n" + x + "X: " + string(20000, 'y') + "\r\n\r\n"; break;
		default: q.bytes = bodyText(r, 1 + r.below(300)) + "\r\n\r\n"; break;
	}
	return q;
}

struct Client {
	Running & u;
	Rng r;
	size_t count;
	string own;
	std::atomic<int> fd { -1 };
	string doing;
	std::mutex dm;
	vector<Req> aborted;
	void say(const string & s) { std::lock_guard<std::mutex> l(dm); doing = s; }
	Client(Running & x, Rng q, size_t n) : u(x), r(q), count(n) {}
	void bad(const string & key, const string & d, const Req & q, const Message & m) {
		vf::violation("P30/" + key, d + "; request " + trace(q.bytes) + ", response " + trace(m.text) + " with " + std::to_string(m.body.size()) + " bytes of body" + (u.site.configured ? " (configured)" : ""));
	}
	// Send in pieces.
	bool deliver(const string & s) {
		if (r.chance(1, 2)) return sendAll(fd, s);
		size_t p = 0;
		int pieces = 0;
		while (p < s.size()) {
			size_t n = std::min(s.size() - p, pieces > 12 ? s.size() : 1 + (size_t) r.below(r.chance(1, 2) ? 10 : 2000));
			if (!sendAll(fd, s.substr(p, n))) return false;
			p += n;
			++pieces;
			if (r.chance(1, 4)) usleep((useconds_t) r.below(600));
		}
		vf::count("fragmented deliveries");
		return true;
	}
	void judge(const Req & q, const Message & m) {
		auto & e = q.e;
		const bool head = q.method == "HEAD";
		if (m.text.find(SECRET) != string::npos || m.body.find(SECRET) != string::npos) return bad("containment", "a file outside of the document root was sent", q, m);
		if (!m.ok) return bad("response", "no complete response", q, m);
		if (e.any4or5 ? m.status() < 400 : m.status() != e.status) return bad(e.what == "illegal path" ? "containment" : e.what == "handler that throws" ? "failure" : "routing", "status " + std::to_string(m.status()) + " instead of " + std::to_string(e.status) + " (" + e.what + ")", q, m);
		if (m.start.compare(0, 9, "HTTP/" + q.version + " ")) bad("response", "the version is not that of the request", q, m);
		if (!head && e.body && m.body != *e.body) bad("content", "the body of " + std::to_string(e.body->size()) + " bytes differs (" + e.what + ")", q, m);
		if (e.type) { auto t = m.field("content-type"); if (t.value_or("") != *e.type) bad("content", "the type is '" + t.value_or("") + "' instead of '" + *e.type + "'", q, m); }
		if (e.location && m.field("location") != e.location) bad("redirection", "the location is '" + m.field("location").value_or("-") + "' instead of '" + *e.location + "'", q, m);
		if (head && e.length && m.field("content-length") && *m.field("content-length") != std::to_string(*e.length)) bad("content", "the announced length is wrong", q, m);
		if (m.field("server") != u.site.id) bad("content", "the server calls itself '" + m.field("server").value_or("-") + "'", q, m);
		if (m.fields.count("content-length") > 1) bad("response", "two lengths", q, m);
		// The session.
		auto n = m.fields.count("set-cookie");
		string k = m.field("set-cookie").value_or(""), start = u.site.cookie + "=", end = "; HttpOnly";
		if (n != 1 || k.compare(0, start.size(), start) || k.size() < start.size() + end.size() + 8 || k.compare(k.size() - end.size(), end.size(), end)) return bad("session", "the cookie of the session is '" + k + "'", q, m);
		string id = k.substr(start.size(), k.size() - start.size() - end.size());
		bool fresh;
		{ std::lock_guard<std::mutex> l(idsMutex); fresh = ids.insert(id).second; }
		if (!q.expectId.empty()) { if (id != q.expectId) bad("session", "the request belongs to session " + q.expectId, q, m); else vf::count("sessions continued"); }
		else { if (!fresh) bad("session", "a request without session was given an existing one", q, m); else vf::count("sessions created"); }
		own = id;
		vf::count("requests answered as expected");
		vf::count("answers: " + e.what);
		vf::distinct(q.method + q.version + e.what + std::to_string(m.status()) + (q.chunked ? "c" : "") + (u.site.configured ? "f" : "") + std::to_string(q.cookie) + (e.type ? *e.type : "") + std::to_string(q.target.size() % 8) + (q.close ? "x" : "k"));
	}
	bool closes(const Req & q) const {
		return q.close || q.malformed || (q.method == "HEAD" && q.e.what != "canned") || q.e.location || (q.e.what == "illegal path" && q.method == "HEAD");
	}
	void run() {
		vf::Watch w;
		size_t left = count;
		while (left) {
			say("connecting");
			int f = dial(u.port);
			if (f < 0) { vf::violation("P30/service", string("the server does not accept a connection: ") + strerror(errno)); return; }
			fd = f;
			connection(left);
			fd = -1;
		}
	}
	void hangUp() { int f = fd.exchange(-1); if (f >= 0) { if (r.chance(1, 3)) reset(f); else close(f); } }
	void connection(size_t & left) {
		Reader in(fd);
		if (r.chance(1, 12)) { vf::count("connections without requests"); --left; return hangUp(); }
		for (;;) {
			// A batch of requests that are sent without waiting for the responses.
			vector<Req> batch;
			size_t want = r.chance(1, 3) ? 1 + r.below(6) : 1;
			string bytes;
			while (batch.size() < want && left) {
				--left;
				batch.push_back(r.chance(1, 25) ? malformedRequest(r) : randomRequest(r, u.site, own));
				bytes += batch.back().bytes;
				if (closes(batch.back())) break;
				if (bytes.size() > 300000) break;
			}
			if (batch.empty()) { // the other side closes as well
				if (r.chance(1, 2)) {
					shutdown(fd, SHUT_WR);
					say("waiting for the end of the connection");
					while (in.more()) {}
					if (!in.buffer.empty()) vf::violation("P30/response", "bytes after the last response: " + trace(in.buffer));
					vf::count("connections ended by the client");
				}
				return hangUp();
			}
			// The client vanishes.
			if (r.chance(1, 14)) {
				Req & q = batch.back();
				bool whole = r.chance(1, 3) || q.bytes.size() < 2;
				size_t cut = whole ? q.bytes.size() : 1 + r.below(q.bytes.size() - 1);
				deliver(bytes.substr(0, bytes.size() - q.bytes.size() + cut));
				for (auto & b : batch) aborted.push_back(b);
				aborted.back().mostCalls = whole && !q.malformed ? 1 : 0;
				if (r.chance(1, 3)) { char c[10]; say("reading a little"); if (whole && !q.malformed) (void) !recv(fd, c, sizeof c, 0); }
				vf::count(whole ? "clients that vanish before the response" : "clients that vanish within a request");
				return hangUp();
			}
			bool half = !left && r.chance(1, 3);
			say("sending " + trace(bytes));
			bool sent = deliver(bytes);
			if (half && sent) shutdown(fd, SHUT_WR);
			for (size_t i = 0; i < batch.size(); ++i) {
				Req & q = batch[i];
				say("waiting for the response to " + trace(q.bytes));
				if (q.malformed) {
					Message m = in.read(true);
					while (in.more()) {}
					if (m.ok && (m.status() < 400 || m.status() > 499)) bad("malformed", "a malformed request was answered", q, m);
					vf::count("malformed requests");
					return hangUp();
				}
				Message m = in.read(true, q.method == "HEAD");
				judge(q, m);
				if (batch.size() > 1) vf::count("pipelined requests");
				if (!m.ok) return hangUp();
				string conn = lower(m.field("connection").value_or(""));
				bool keep = m.framed && (q.version == "1.1" ? conn != "close" : conn == "keep-alive");
				if (q.close && keep) bad("response", "the connection is kept although the client closes it", q, m);
				if (!keep) {
					say("waiting for the server to close after " + trace(q.bytes));
					while (in.more()) {}
					if (!in.buffer.empty()) bad("response", "bytes after the response: " + trace(in.buffer), q, m);
					if (i + 1 < batch.size() && !closes(q)) bad("response", "the connection is closed before the next request was answered", q, m);
					vf::count("connections ended by the server");
					return hangUp();
				}
			}
			if (half) {
				say("waiting for the end of the half closed connection");
				while (in.more()) {}
				if (!in.buffer.empty()) vf::violation("P30/response", "bytes after the last response: " + trace(in.buffer));
				vf::count("half closed connections");
				return hangUp();
			}
		}
	}
};

// WebSocket clients.
void websocket(Running & u, Rng & r) {
	vf::Watch w;
	try {
		if (r.chance(1, 2)) {
			string s = bodyText(r, 1 + r.below(5000));
			for (char & c : s) c = (char) ('a' + (unsigned char) c % 26);
			auto b = WsClient(address(), u.port).send<boost::beast::multi_buffer>("/ws", boost::asio::buffer(s));
			if (boost::beast::buffers_to_string(b.data()) != s) vf::violation("P30/websocket", "the echoed message differs");
			vf::count("websocket messages");
			return;
		}
		boost::asio::io_context c;
		WS::stream<TCP::socket> ws { c };
		ws.next_layer().connect(makeEndpoint(address(), u.port));
		ws.handshake(address(), "/ws");
		for (size_t n = r.below(6); n--;) {
			string s = bodyText(r, r.below(r.chance(1, 4) ? 100000 : 300));
			bool text = r.chance(1, 2);
			if (text) for (char & x : s) x = (char) ('a' + (unsigned char) x % 26);
			ws.text(text);
			if (r.chance(1, 3)) ws.ping("p");
			if (r.chance(1, 3) && s.size() > 2) { ws.write_some(false, boost::asio::buffer(s.substr(0, s.size() / 2))); ws.write_some(true, boost::asio::buffer(s.substr(s.size() / 2))); }
			else ws.write(boost::asio::buffer(s));
			boost::beast::multi_buffer b;
			ws.read(b);
			if (boost::beast::buffers_to_string(b.data()) != s || ws.got_text() != text) vf::violation("P30/websocket", "the echoed message of " + std::to_string(s.size()) + " bytes differs");
			vf::count("websocket messages");
		}
		if (r.chance(2, 3)) ws.close(WS::close_code::normal);
	} catch (const std::exception & e) { vf::violation("P30/websocket", string("failed: ") + e.what()); }
}

void requests(Rng & r, bool text) {
	tree();
	const size_t handlesBefore = handles();
	handled.calls.clear();
	ids.clear();
	std::optional<Running> made;
	if (text) { made = siteFromText(r); if (!made) return; }
	else made = siteInCode(r);
	Running & u = *made;
	WatchNew watch;
	try { u.server->startAsync(); } catch (const std::exception & e) { vf::violation("P30/service", string("the server does not start: ") + e.what()); return; }
	watch.add();
	const size_t idle = sockets();
	vector<std::unique_ptr<Client>> clients;
	std::atomic<size_t> done { 0 };
	vector<std::thread> ts;
	size_t n = 1 + r.below(6);
	for (size_t k = 0; k < n; ++k) clients.push_back(std::make_unique<Client>(u, Rng(r.next()), 4 + r.below(16)));
	for (auto & c : clients) ts.emplace_back([&done, &c] { try { c->run(); } catch (const std::exception & e) { vf::violation("P30/harness", e.what()); } ++done; });
	Rng wr(r.next());
	if (r.chance(1, 4)) { ++n; ts.emplace_back([&] { websocket(u, wr); ++done; }); }
	if (!vf::awaitOrStuck([&] { return done == n; })) {
		string s;
		for (auto & c : clients) { std::lock_guard<std::mutex> l(c->dm); if (c->fd >= 0) { s += " | " + c->doing; shutdown(c->fd, SHUT_RDWR); } }
		vf::violation("P30/service", "clients wait for ever:" + s);
		vf::dump(false);
		_exit(0);
	}
	for (auto & t : ts) t.join();
	if (!settle([&] { return sockets() <= idle; })) vf::violation("P30/leak", "after all the clients have gone " + std::to_string(sockets() - idle) + " connections stay open");
	// Every request was handled exactly once, those of vanished clients at most once.
	{
		std::lock_guard<std::mutex> l(handled.m);
		for (auto & c : clients) for (auto & q : c->aborted) {
			int k = handled.calls.count(q.id) ? handled.calls[q.id] : 0;
			if (k > q.mostCalls) vf::violation("P30/once", "an incomplete request, or one of a vanished client, was handled " + std::to_string(k) + " times instead of at most " + std::to_string(q.mostCalls));
			handled.calls.erase(q.id);
		}
		for (auto & k : handled.calls) {
			if (k.first[0] == 'm') vf::violation("P30/malformed", "a malformed request was handled");
			if (k.second != 1) vf::violation("P30/once", "a request was handled " + std::to_string(k.second) + " times");
			vf::count("requests handled once");
		}
		for (auto & s : handled.strange) vf::violation("P30/routing", s);
		handled.strange.clear();
	}
	if (!u.server->isRunning()) vf::violation("P30/lifecycle", "the server does not say that it is running");
	u.server->stop();
	if (u.server->isRunning()) vf::violation("P30/lifecycle", "a stopped server says that it is running");
	int f = dial(u.port);
	if (f >= 0) { close(f); vf::violation("P30/lifecycle", "a stopped server accepts connections"); }
	u.server.reset();
	u.configured = {};
	if (!settle([&] { return handles() <= handlesBefore; })) vf::violation("P30/leak", "the server leaves " + std::to_string(handles() - handlesBefore) + " descriptors open");
	vf::count("servers");
}

vf::Mode requestsMode("requests", [] (int64_t, Rng & r) { requests(r, false); });
vf::Mode configuredMode("configured", [] (int64_t, Rng & r) { requests(r, true); });

} // namespace

#include "http_life.hpp"
