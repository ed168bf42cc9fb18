// The life of a server, and the HTTP client against raw servers (part of http.cpp).
#pragma once
namespace {

struct ConsoleClosed { // the signal handler of the server writes to the standard error
	int saved = dup(2);
	ConsoleClosed() { int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); }
	~ConsoleClosed() { dup2(saved, 2); close(saved); }
};

bool ask(unsigned short port, int & fd, bool keep) {
	if (fd < 0) fd = dial(port);
	if (fd < 0) return false;
	static std::atomic<int> n { 0 };
	string id = "l" + std::to_string(++n);
	if (!sendAll(fd, "GET /x HTTP/1.1\r\nHost: h\r\nX-Id: " + id + "\r\n\r\n")) { close(fd); fd = -1; return false; }
	Reader in(fd);
	auto m = in.read(true);
	if (!m.ok || m.status() != 200 || m.body != echoText("GET", "/x", id, "")) { close(fd); fd = -1; return false; }
	if (!keep) { close(fd); fd = -1; }
	return true;
}

void lifecycle(int64_t, Rng & r) {
	tree();
	handled.calls.clear();
	const size_t handlesBefore = handles();
	const unsigned short port = nextPort();
	const size_t asked = r.chance(1, 6) ? 0 : 1 + r.below(5);
	const size_t workers = asked ? asked : std::max<size_t>(1, std::thread::hardware_concurrency());
	const string prefix = r.chance(1, 5) ? "" : "wk" + std::to_string(r.below(1000));
	const bool signals = r.chance(1, 2);
	string history = "workers " + std::to_string(asked) + (signals ? " signals" : "") + ":";
	auto bad = [&] (const string & key, const string & d) { vf::violation("P30/" + key, d + "; history " + history); };
	auto stuck = [&] (const string & d) { bad("lifecycle", d); vf::dump(false); _exit(0); };
	std::unique_ptr<HttpServer> server(new HttpServer(theClock(), "life", makeEndpoint(address(), port), prefix, asked, std::make_shared<Echo>(0), nullptr, "balau.test", "session", MimeTypes::defaultMimeTypes, signals));
	WatchNew watch;
	enum { Stopped, Async, Sync, Signalled } state = Stopped;
	std::thread sync;
	std::atomic<bool> syncDone { true };
	string syncName;
	vector<int> live; // connections that are kept
	// An operation in a thread of its own, so that it can be seen to hang.
	auto timely = [&] (const string & what, const std::function<void ()> & f) {
		history += " " + what;
		std::atomic<bool> done { false };
		std::thread t([&] { vf::Watch w; try { f(); } catch (const std::exception & e) { bad("lifecycle", what + " threw: " + e.what()); } done = true; });
		if (!vf::awaitOrStuck([&] { watch.add(); return done.load(); })) stuck(what + " does not return");
		t.join();
	};
	auto serves = [&] { int fd = -1; bool ok = false; timely("request", [&] { ok = ask(port, fd, false); }); return ok; };
	const size_t threadsBefore = threads().size();
	auto checkRunning = [&] {
		if (!server->isRunning()) bad("lifecycle", "a started server does not run");
		if (!serves()) bad("lifecycle", "a started server does not answer");
		vf::count("started servers");
	};
	auto checkStopped = [&] {
		if (server->isRunning()) bad("lifecycle", "a stopped server says that it runs");
		if (!settle([&] { return threads().size() <= threadsBefore; })) bad("lifecycle", "workers remain after the stop");
		int fd = dial(port);
		if (fd >= 0) { close(fd); bad("lifecycle", "a stopped server accepts connections"); }
		for (int l : live) { // their connections end
			std::atomic<bool> done { false };
			std::thread t([&] { vf::Watch w; char c; while (recv(l, &c, 1, 0) > 0) {} done = true; });
			if (!vf::awaitOrStuck([&] { return done.load(); })) stuck("a connection to the stopped server stays open");
			t.join();
			close(l);
			vf::count("connections ended by a stop");
		}
		live.clear();
		vf::count("stopped servers");
	};
	auto joinSync = [&] {
		if (!sync.joinable()) return;
		if (!vf::awaitOrStuck([&] { return syncDone.load(); })) stuck("startSync does not return after the stop");
		sync.join();
		if (syncName != "syncthread") bad("lifecycle", "startSync leaves the thread with the name '" + syncName + "'");
	};
	auto startSync = [&] {
		history += " startSync";
		syncDone = false;
		sync = std::thread([&] {
			vf::Watch w;
			System::ThreadName::setName("syncthread");
			try { server->startSync(); } catch (const std::exception & e) { bad("lifecycle", string("startSync threw: ") + e.what()); }
			syncName = System::ThreadName::getName();
			syncDone = true;
		});
		if (!vf::awaitOrStuck([&] { watch.add(); return server->isRunning(); })) stuck("startSync does not start");
		vf::count("synchronous starts");
	};
	for (size_t step = 3 + r.below(8); step--;) {
		watch.add();
		switch (r.below(10)) {
			case 0: case 1: // start
				if (state == Signalled) break;
				if (state == Stopped && r.chance(1, 4)) { // somebody else has the port
					int other = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
					sockaddr_in a {};
					a.sin_family = AF_INET;
					a.sin_port = htons(port);
					inet_pton(AF_INET, address().c_str(), &a.sin_addr);
					int one = 1;
					setsockopt(other, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
					if (bind(other, (sockaddr *) &a, sizeof a) == 0 && listen(other, 1) == 0) {
						const bool s = r.chance(1, 2);
						string outcome = "nothing";
						timely(s ? "startSync(port in use)" : "startAsync(port in use)", [&] {
							try { if (s) server->startSync(); else server->startAsync(); }
							catch (const Exception::NetworkException &) { outcome = "refused"; }
							catch (const std::exception & e) { outcome = e.what(); }
						});
						if (outcome != "refused") bad("lifecycle", "starting on a port in use: " + outcome);
						if (server->isRunning()) bad("lifecycle", "a server that could not start says that it runs");
						vf::count("ports in use");
					}
					close(other);
					break;
				}
				if (state == Stopped && r.chance(1, 2)) { startSync(); state = Sync; checkRunning(); break; }
				timely("startAsync", [&] { server->startAsync(); });
				if (state == Stopped) state = Async; else vf::count("started twice");
				checkRunning();
				break;
			case 2: { // stop
				const bool warn = r.chance(1, 2);
				timely("stop", [&] { server->stop(warn); });
				joinSync();
				state = Stopped;
				checkStopped();
				break;
			}
			case 3: case 4: // connections that stay
				if (state != Async && state != Sync) break;
				for (size_t n = 1 + r.below(3); n--;) {
					int fd = -1;
					bool ok = false;
					timely("keep", [&] { ok = ask(port, fd, true); });
					if (!ok) { bad("lifecycle", "no answer"); break; }
					if (r.chance(1, 4)) sendAll(fd, "GET /incomplete");
					live.push_back(fd);
				}
				break;
			case 5: { // as many requests at once as there are workers
				if (state != Async && state != Sync) break;
				history += " barrier";
				{ std::lock_guard<std::mutex> l(barrier.m); barrier.want = workers; barrier.here = 0; barrier.names.clear(); }
				vector<std::thread> ts;
				std::atomic<size_t> done { 0 };
				std::atomic<bool> ok { true };
				for (size_t k = 0; k < workers; ++k) ts.emplace_back([&, k] {
					vf::Watch w;
					int fd = dial(port);
					if (fd < 0 || !sendAll(fd, "GET /b HTTP/1.1\r\nX-Barrier: 1\r\nX-Id: b" + std::to_string(k) + "\r\n\r\n")) ok = false;
					else { Reader in(fd); auto m = in.read(true); if (!m.ok || m.status() != 200) ok = false; }
					if (fd >= 0) close(fd);
					++done;
				});
				if (!vf::awaitOrStuck([&] { return done == workers; })) {
					size_t here;
					{ std::lock_guard<std::mutex> l(barrier.m); here = barrier.here; }
					stuck("of " + std::to_string(workers) + " workers " + std::to_string(here) + " serve at once");
				}
				for (auto & t : ts) t.join();
				if (!ok) bad("lifecycle", "concurrent requests were not answered");
				if (!prefix.empty()) {
					std::multiset<string> want;
					for (size_t k = 0; k < workers; ++k) want.insert(prefix + "-" + std::to_string(k));
					if (barrier.names != want) { string s; for (auto & n : barrier.names) s += " " + n; bad("lifecycle", "the workers are" + s); }
				}
				vf::count("concurrent requests of all the workers");
				break;
			}
			case 6: { // a signal ends a synchronous server
				if (!signals || (state != Sync && state != Async)) break;
				const int which[] = { SIGTERM, SIGINT, SIGQUIT };
				const int s = which[r.below(3)];
				history += " signal" + std::to_string(s);
				{
					ConsoleClosed quiet;
					kill(getpid(), s);
					if (state == Sync) { joinSync(); state = Stopped; }
					else {
						if (!vf::awaitOrStuck([&] { int fd = dial(port); if (fd >= 0) close(fd); return fd < 0; })) stuck("the signal does not close the listener");
						timely("stop", [&] { server->stop(); });
						state = Stopped;
					}
				}
				checkStopped();
				vf::count("signals");
				break;
			}
			case 7: { // start and stop by several threads at once
				if (state != Stopped) break;
				history += " concurrent";
				vector<std::thread> ts;
				std::atomic<size_t> done { 0 };
				const size_t n = 2 + r.below(3);
				for (size_t k = 0; k < n; ++k) {
					vector<int> ops;
					for (size_t m = 1 + r.below(4); m--;) ops.push_back((int) r.below(3));
					ts.emplace_back([&, ops] {
						vf::Watch w;
						try { for (int o : ops) { if (o == 0) server->startAsync(); else if (o == 1) server->stop(); else (void) server->isRunning(); } }
						catch (const std::exception & e) { bad("lifecycle", string("concurrent start and stop threw: ") + e.what()); }
						++done;
					});
				}
				if (!vf::awaitOrStuck([&] { watch.add(); return done == n; })) stuck("concurrent start and stop do not return");
				for (auto & t : ts) t.join();
				state = server->isRunning() ? Async : Stopped;
				if (state == Async) checkRunning(); else checkStopped();
				vf::count("concurrent starts and stops");
				break;
			}
			default:
				if (state == Async || state == Sync) { if (!serves()) bad("lifecycle", "a running server does not answer"); if (!server->isRunning()) bad("lifecycle", "a running server says that it does not run"); }
				else if (server->isRunning()) bad("lifecycle", "a stopped server says that it runs");
				break;
		}
	}
	// The destructor stops the server.
	if (state == Sync) { timely("stop", [&] { server->stop(); }); joinSync(); checkStopped(); }
	timely("destruction", [&] { server.reset(); });
	for (int l : live) {
		std::atomic<bool> done { false };
		std::thread t([&] { vf::Watch w; char c; while (recv(l, &c, 1, 0) > 0) {} done = true; });
		if (!vf::awaitOrStuck([&] { return done.load(); })) stuck("a connection to the destroyed server stays open");
		t.join();
		close(l);
	}
	if (!settle([&] { return handles() <= handlesBefore; })) bad("leak", std::to_string(handles() - handlesBefore) + " descriptors stay open");
	vf::distinct(history);
	vf::count("lives of servers");
}
vf::Mode lifecycleMode("lifecycle", lifecycle);

// ---------------------------------------------------------------- the client

struct RawServer {
	int fd = -1;
	unsigned short port = 0;
	RawServer() {
		fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
		sockaddr_in a {};
		a.sin_family = AF_INET;
		inet_pton(AF_INET, address().c_str(), &a.sin_addr);
		socklen_t n = sizeof a;
		if (bind(fd, (sockaddr *) &a, sizeof a) || listen(fd, 16) || getsockname(fd, (sockaddr *) &a, &n)) abort();
		port = ntohs(a.sin_port);
	}
	~RawServer() { if (fd >= 0) close(fd); }
};

void client(int64_t, Rng & r) {
	tree();
	RawServer raw;
	const string version = r.chance(1, 4) ? "1.0" : "1.1";
	const string agent = r.chance(1, 2) ? "" : "agent " + std::to_string(r.below(1000));
	const string wantAgent = agent.empty() ? "Balau " + balauVersion() : agent;
	std::unique_ptr<HttpClient> c;
	const string url = "http://" + address() + ":" + std::to_string(raw.port) + (r.chance(1, 2) ? "" : r.chance(1, 2) ? "/" : "/ignored");
	string how;
	try {
		switch (r.below(4)) {
			case 0: how = "host"; c = agent.empty() ? std::make_unique<HttpClient>(address(), raw.port, version.c_str()) : std::make_unique<HttpClient>(address(), agent, raw.port, version.c_str()); break;
			case 1: how = "text"; c = agent.empty() ? HttpClient::newClient(url, version.c_str()) : HttpClient::newClient(url, agent, version.c_str()); break;
			case 2: how = "url"; c = agent.empty() ? HttpClient::newClient(Resource::Http(url), version.c_str()) : HttpClient::newClient(Resource::Http(url), agent, version.c_str()); break;
			default: {
				how = "copy";
				HttpClient a(address(), wantAgent, raw.port, version.c_str());
				HttpClient b("0.0.0.0", 1);
				if (r.chance(1, 2)) b = a; else b = HttpClient(a);
				c = std::make_unique<HttpClient>(std::move(b));
				break;
			}
		}
	} catch (const std::exception & e) { vf::violation("P30/client", "no client for " + url + ": " + e.what()); return; }
	if (r.chance(1, 20)) {
		for (auto & x : vector<std::pair<string, string>> { { "ftp://h/", "1.1" }, { "http://h/", "2" }, { "http://h/", "" }, { "file:/tmp/x", "1.1" } }) {
			string o = "accepted";
			try { HttpClient::newClient(x.first, x.second.c_str()); } catch (const Exception::NetworkException &) { o = "refused"; } catch (const std::exception & e) { o = e.what(); }
			if (o != "refused") vf::violation("P30/client", "a client for " + x.first + " of version '" + x.second + "' is " + o);
		}
		vf::count("clients refused");
	}
	for (size_t n = 1 + r.below(4); n--;) {
		const int kind = (int) r.below(3);
		const char * method[] = { "GET", "HEAD", "POST" };
		string path = r.chance(1, 6) ? "" : joined(randomComponents(r, 3)) + (r.chance(1, 4) ? "?q=1&r=%20" : ""), body = kind == 2 ? bodyText(r, r.chance(1, 4) ? 0 : r.below(r.chance(1, 5) ? 300000 : 500)) : "";
		// The response.
		const int codes[] = { 200, 200, 200, 404, 500, 201, 301, 418 };
		const int code = codes[r.below(8)];
		string payload = bodyText(r, r.chance(1, 5) ? 0 : r.below(r.chance(1, 4) ? 500000 : 2000));
		const int framing = (int) r.below(3);
		string answer = "HTTP/" + version + " " + std::to_string(code) + " Some reason\r\nX-Reply: " + std::to_string(r.below(1000)) + "\r\nContent-Type: text/x-reply\r\n";
		string value = answer.substr(answer.find("X-Reply: ") + 9);
		value = value.substr(0, value.find("\r\n"));
		if (framing == 0 || (framing == 1 && version == "1.0")) answer += "Content-Length: " + std::to_string(payload.size()) + "\r\n\r\n" + (kind == 1 ? "" : payload);
		else if (framing == 1) {
			answer += "Transfer-Encoding: chunked\r\n\r\n";
			if (kind != 1) {
				char b[32];
				for (size_t p = 0; p < payload.size();) { size_t k = std::min(payload.size() - p, 1 + (size_t) r.below(60000)); snprintf(b, sizeof b, "%zx\r\n", k); answer += b + payload.substr(p, k) + "\r\n"; p += k; }
				answer += "0\r\n\r\n";
			}
		} else answer += "\r\n" + (kind == 1 ? "" : payload);
		const bool truncate = r.chance(1, 8) && kind != 1 && (framing != 2 || version == "") && payload.size() > 10;
		const bool garbage = !truncate && r.chance(1, 15);
		if (truncate) answer.resize(answer.size() - 1 - r.below(payload.size() - 5));
		if (garbage) answer = "220 not http\r\n\r\n";
		Message seen;
		Rng sr(r.next());
		std::atomic<int> connection { -1 };
		std::atomic<bool> served { false }, done { false };
		std::thread server([&] {
			vf::Watch w;
			int fd = accept(raw.fd, nullptr, nullptr);
			if (fd < 0) { served = true; return; }
			connection = fd;
			Reader in(fd);
			seen = in.read(false);
			if (sr.chance(1, 2)) sendAll(fd, answer); else for (size_t p = 0; p < answer.size();) { size_t k = std::min(answer.size() - p, 1 + (size_t) sr.below(3000)); if (!sendAll(fd, answer.substr(p, k))) break; p += k; if (sr.chance(1, 8)) usleep(200); }
			if (truncate || garbage || framing == 2 || sr.chance(1, 2)) shutdown(fd, SHUT_WR);
			char b[4096];
			while (recv(fd, b, sizeof b, 0) > 0) {} // until the client has closed
			connection = -1;
			close(fd);
			served = true;
		});
		string outcome = "ok";
		std::thread caller([&] {
			vf::Watch w;
			try {
				if (kind == 1) {
					auto p = c->head(path);
					if (p.result_int() != (unsigned) code || p["X-Reply"] != value) outcome = "the response differs";
				} else {
					auto p = kind == 0 ? c->get(path) : c->post(path, body);
					if (p.result_int() != (unsigned) code || p["X-Reply"] != value || p["Content-Type"] != "text/x-reply") outcome = "the response differs";
					else if (string(p.body().data(), p.body().size()) != payload) outcome = "the body of " + std::to_string(payload.size()) + " bytes is received as " + std::to_string(p.body().size());
				}
			} catch (const std::exception & e) { outcome = string("threw: ") + e.what(); }
			done = true;
		});
		if (!vf::awaitOrStuck([&] { return done && served; })) {
			vf::violation("P30/client", string("a request of the client does not end: ") + method[kind] + " framing " + std::to_string(framing));
			vf::dump(false);
			_exit(0);
		}
		caller.join();
		server.join();
		string what = string(method[kind]) + " '" + path + "' by a client made by " + how + ", framing " + std::to_string(framing) + ", version " + version;
		if (truncate || garbage) { if (outcome.compare(0, 5, "threw")) vf::violation("P30/client", "a broken response is accepted: " + outcome + "; " + what); else vf::count("broken responses refused"); }
		else { if (outcome != "ok") vf::violation("P30/client", outcome + "; " + what); vf::count("responses received"); }
		string start = string(method[kind]) + " " + (path.empty() ? "/" : path) + " HTTP/" + version;
		if (seen.start != start) vf::violation("P30/client", "the request is '" + seen.start + "' instead of '" + start + "'");
		if (seen.body != body) vf::violation("P30/client", "the body of the request differs; " + what);
		if (seen.field("user-agent") != wantAgent) vf::violation("P30/client", "the user agent is '" + seen.field("user-agent").value_or("-") + "'; " + what);
		if (seen.field("host").value_or("").compare(0, address().size(), address())) vf::violation("P30/client", "the host is '" + seen.field("host").value_or("-") + "'; " + what);
		vf::distinct("client" + how + std::to_string(kind) + std::to_string(framing) + std::to_string(code) + version + (truncate ? "t" : "") + (garbage ? "g" : "") + (payload.empty() ? "0" : "") + (body.empty() ? "0" : ""));
	}
	// Nobody listens.
	if (r.chance(1, 6)) {
		close(raw.fd);
		raw.fd = -1;
		try { c->get("/"); vf::violation("P30/client", "a response from nobody"); } catch (const std::exception &) { vf::count("refused connections"); }
	}
}
vf::Mode clientMode("client", client);

} // namespace
