// support.cpp : monitors of the users and application directories (P33) and of the support utilities (P34).
#include <vf.hpp>
#include <boost/predef.h>
#include <Balau/Type/ToString.hpp>
#include <Balau/Util/App.hpp>
#include <Balau/Util/Containers.hpp>
#include <Balau/Util/Enums.hpp>
#include <Balau/Util/Files.hpp>
#include <Balau/Util/Memory.hpp>
#include <Balau/Util/Random.hpp>
#include <Balau/Util/Streams.hpp>
#include <Balau/Util/User.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/System/SystemClock.hpp>
#include <Balau/System/ThreadName.hpp>
#include <Balau/Testing/Util/NetworkTesting.hpp>
#include <Balau/Type/UUID.hpp>
#include <cfloat>
#include <list>
#include <deque>
#include <grp.h>
#include <poll.h>
#include <pwd.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

using namespace Balau;
using std::string;

// ------------------------------------------------ the stand-in user database

// What the database says: 0 = the truth, 1 = the buffer is too small until it has the size, 2 = an error, 3 = no entry.
static int dbFault = 0;
static size_t dbSize = 0;
static int dbCalls = 0;

extern "C" int __real_getpwuid_r(uid_t, passwd *, char *, size_t, passwd **);
extern "C" int __wrap_getpwuid_r(uid_t uid, passwd * p, char * buffer, size_t size, passwd ** result) {
	++dbCalls;
	if ((dbFault == 1 && size < dbSize) || dbFault == 2) { *result = nullptr; errno = 0; return dbFault == 1 ? ERANGE : EIO; }
	if (dbFault == 3) { *result = nullptr; errno = 0; return 0; }
	return __real_getpwuid_r(uid, p, buffer, size, result);
}

// ------------------------------------------------ P33: processes with other users and environments

struct Answer { bool ended = false; int status = 0; std::map<string, string> values; };

// Runs the code in a child, which says what it found out by name.
using Say = std::function<void (const string &, const string &)>;
static Answer inChild(const std::function<void (const Say &)> & code) {
	int p[2];
	if (pipe2(p, O_CLOEXEC)) { perror("pipe"); _exit(2); }
	fflush(nullptr);
	const pid_t pid = fork();
	if (pid == 0) {
		close(p[0]);
		rlimit l { 6, 7 };
		setrlimit(RLIMIT_CPU, &l);
		signal(SIGXCPU, SIG_DFL);
		code([&] (const string & k, const string & v) {
			string s;
			const auto put = [&] (const string & t) { const uint32_t n = (uint32_t) t.size(); s.append((const char *) &n, 4); s += t; };
			put(k); put(v);
			for (size_t done = 0; done < s.size(); ) { const ssize_t n = write(p[1], s.data() + done, s.size() - done); if (n <= 0) _exit(3); done += (size_t) n; }
		});
		_exit(0);
	}
	close(p[1]);
	string all;
	char b[4096];
	for (;;) {
		const ssize_t n = read(p[0], b, sizeof b);
		if (n < 0 && errno == EINTR) continue;
		if (n <= 0) break;
		all.append(b, (size_t) n);
	}
	close(p[0]);
	Answer a;
	while (waitpid(pid, &a.status, 0) < 0 && errno == EINTR) {}
	a.ended = WIFEXITED(a.status) && WEXITSTATUS(a.status) == 0;
	size_t at = 0;
	const auto get = [&] { uint32_t n = 0; if (at + 4 > all.size()) return string(); memcpy(&n, all.data() + at, 4); string s = all.substr(at + 4, n); at += 4 + n; return s; };
	while (at < all.size()) { string k = get(); a.values[k] = get(); }
	return a;
}

template <typename F> static string outcome(F f) {
	try { return "= " + f(); }
	catch (const Exception::UserNotFoundException & e) { return "user not found"; }
	catch (const std::exception & e) { return string("exception: ") + e.what(); }
}

static string randomName(vf::Rng & r) {
	static const std::vector<string> parts = { "a", "B", "7", ".x", "_", "-", " ", "\xc3\xa9", "name", "..y", "%20", "#" };
	string s = "n";
	for (uint64_t n = r.below(5); n; --n) s += parts[r.below(parts.size())];
	return s + "z";
}

static string modeOf(const string & path) {
	struct stat s;
	if (stat(path.c_str(), &s)) return "missing";
	char b[40];
	snprintf(b, sizeof b, "%c%03o %u", S_ISDIR(s.st_mode) ? 'd' : '-', s.st_mode & 07777, s.st_uid);
	return b;
}

static void directories(int64_t c, vf::Rng & r) {
	const string root = vf::st().scratch + "/dirs" + std::to_string(c);
	mkdir(root.c_str(), 0755);

	// The environment: variable -> unset, blank or a directory below the root.
	std::map<string, std::optional<string>> env;
	for (const char * v : { "HOME", "XDG_DATA_HOME", "XDG_CONFIG_HOME", "XDG_RUNTIME_DIR", "TMPDIR" }) {
		const auto k = r.below(6);
		if (k == 0) env[v] = r.of<string>({ "", " ", "   ", "  " });
		else if (k < 4) env[v] = root + "/" + string(v) + randomName(r);
		else env[v] = {};
	}
	const auto value = [&] (const char * v) { const auto & e = env[v]; return e && e->find_first_not_of(" \t") != string::npos ? *e : string(); };
	if (value("XDG_RUNTIME_DIR").empty() && value("TMPDIR").empty()) env[r.of<const char *>({ "XDG_RUNTIME_DIR", "TMPDIR" })] = root + "/rt" + randomName(r);

	const string group = randomName(r), name = randomName(r), group2 = randomName(r), name2 = randomName(r);
	static const std::vector<uid_t> uids = { 0, 1, 65534, 54321, 2, 3000000 };
	const bool other = geteuid() == 0 && r.chance(1, 2);
	const uid_t ruid = other ? uids[r.below(uids.size())] : getuid(), euid = other ? uids[r.below(uids.size())] : geteuid();
	const int fault = r.chance(1, 2) ? 0 : (int) r.range(1, 3);
	const size_t size = r.of<size_t>({ 513, 700, 4096, 100000, 1000000, SIZE_MAX });
	const bool preexisting = r.chance(1, 3);
	const bool runtime = euid == geteuid() && ruid == getuid();

	// What must be said.
	const auto entry = [] (uid_t u) { passwd * p = getpwuid(u); return p ? std::optional<std::pair<string, string>>({ p->pw_name, p->pw_dir }) : std::nullopt; };
	const auto realEntry = entry(ruid), effectiveEntry = entry(euid);
	const string runtimeBase = !value("XDG_RUNTIME_DIR").empty() ? value("XDG_RUNTIME_DIR") : value("TMPDIR");
	const string runtimeDir = runtimeBase + "/" + group + "/" + name;
	mode_t existingMode = 0755;
	if (preexisting) {
		mkdir(runtimeBase.c_str(), 0755); mkdir((runtimeBase + "/" + group).c_str(), 0755); mkdir(runtimeDir.c_str(), 0755);
		if (r.chance(1, 2)) chmod(runtimeDir.c_str(), existingMode = 0700);
	}
	const auto order = r.below(2);

	const Answer a = inChild([&] (const Say & say) {
		if (chdir(root.c_str())) say("setup", "chdir");
		umask(022);
		for (auto & e : env) { if (e.second) setenv(e.first.c_str(), e.second->c_str(), 1); else unsetenv(e.first.c_str()); }
		if (other && setresuid(ruid, euid, (uid_t) -1)) { say("unprivileged", ""); return; }
		dbFault = fault; dbSize = size; dbCalls = 0;
		using Util::App;
		const auto file = [] (const Resource::File & f) { return f.getEntry().path().string(); };
		const auto user = [&] {
			say("name", outcome([] { return Util::User::getUserName(); }));
			dbCalls = 0;
			say("home", outcome([&] { return file(Util::User::getHomeDirectory()); }));
			say("home asked the database", std::to_string(dbCalls));
		};
		const auto app = [&] (const string & suffix, const string & g, const string & n) {
			dbCalls = 0;
			say("data" + suffix, outcome([&] { return file(App::getUserApplicationDataDirectory(g, n)); }));
			say("config" + suffix, outcome([&] { return file(App::getUserApplicationConfigDirectory(g, n)); }));
			say("apps asked the database" + suffix, std::to_string(dbCalls));
			say("global data" + suffix, outcome([&] { return file(App::getGlobalApplicationDataDirectory(g, n)); }));
			say("global config" + suffix, outcome([&] { return file(App::getGlobalApplicationConfigDirectory(g, n)); }));
			if (runtime) {
				say("runtime" + suffix, outcome([&] { return file(App::getApplicationRuntimeDataDirectory(g, n)); }));
				say("runtime mode" + suffix, modeOf(runtimeDir));
			}
		};
		if (order) { user(); app("", group, name); } else { app("", group, name); user(); }
		// The directories stay what they were.
		for (auto & e : env) setenv(e.first.c_str(), (root + "/other").c_str(), 1);
		dbFault = 0;
		app(" again", group2, name2);
	});

	const string what = [&] {
		string s;
		for (auto & e : env) s += e.first + (e.second ? "=\"" + *e.second + "\" " : " unset ");
		return s + "group=" + group + " name=" + name + " uids " + std::to_string(ruid) + "/" + std::to_string(euid) + " database fault " + std::to_string(fault) + " size " + std::to_string(size);
	}();
	vf::sample(what);
	if (!a.ended) {
		vf::violation(WIFSIGNALED(a.status) && (WTERMSIG(a.status) == SIGXCPU || WTERMSIG(a.status) == SIGKILL) ? "P33/never-returns" : "P33/crash", what + ": status " + std::to_string(a.status) + " after " + std::to_string(a.values.size()) + " answers");
		return;
	}
	if (a.values.count("unprivileged")) { vf::count("not allowed to be another user"); return; }
	const auto expect = [&] (const string & key, const string & want, const char * violationKey) {
		const auto i = a.values.find(key);
		const string got = i == a.values.end() ? "nothing" : i->second;
		vf::check(got == want, string("P33/") + violationKey, key + ": " + got + " instead of " + want + " (" + what + ")");
	};
	// The home directory, as far as the database was asked for it.
	const auto home = [&] (bool asked) -> string {
		if (!value("HOME").empty()) return "= " + value("HOME");
		if (asked && (fault == 2 || fault == 3 || (fault == 1 && size > 1048576))) return "refused";
		return realEntry ? "= " + realEntry->second : "refused";
	};
	const auto number = [&] (const char * k) { const auto i = a.values.find(k); return i == a.values.end() ? 0 : atoi(i->second.c_str()); };
	const auto expectHome = [&] (const string & key, const string & suffix, bool asked) {
		const string h = home(asked);
		const string got = a.values.count(key) ? a.values.at(key) : "nothing";
		if (h == "refused") { vf::check(got[0] != '=', "P33/home", key + ": " + got + " instead of a refusal (" + what + ")"); vf::count("home directories refused"); }
		else { expect(key, h + suffix, "home"); vf::count("home directories found"); }
	};
	expect("name", effectiveEntry ? "= " + effectiveEntry->first : "user not found", "user-name");
	vf::count(effectiveEntry ? "user names found" : "user names refused");
	const bool homeAsked = number("home asked the database") > 0, appsAsked = number("apps asked the database") > 0;
	expectHome("home", "", homeAsked);
	if (homeAsked) vf::count("user database asked");
	if (value("XDG_DATA_HOME").empty()) expectHome("data", "/.local/share/" + group + "/" + name, appsAsked);
	else { expect("data", "= " + value("XDG_DATA_HOME") + "/" + group + "/" + name, "data"); vf::count("directories by variable"); }
	if (value("XDG_CONFIG_HOME").empty()) expectHome("config", "/.config/" + group + "/" + name, appsAsked);
	else { expect("config", "= " + value("XDG_CONFIG_HOME") + "/" + group + "/" + name, "config"); vf::count("directories by variable"); }
	const auto program = boost::filesystem::read_symlink("/proc/self/exe").parent_path().parent_path().string();
	expect("global data", "= " + program + "/share/" + group + "/" + name + "/data", "global");
	expect("global config", "= " + program + "/share/" + group + "/" + name + "/config", "global");
	if (runtime) {
		expect("runtime", "= " + runtimeDir, "runtime");
		char b[40];
		snprintf(b, sizeof b, "d%03o %u", preexisting ? existingMode : 0700, geteuid());
		expect("runtime mode", b, "runtime-mode");
		vf::count(preexisting ? "runtime directories found" : "runtime directories created");
	}
	// Answered once, answered for the life of the process (a refusal is no answer).
	for (const char * k : { "data", "config", "global data", "global config", "runtime" }) {
		if (a.values.count(k) && a.values.at(k)[0] == '=') { expect(string(k) + " again", a.values.at(k), "changed"); vf::count("directories asked for again"); }
	}
	vf::distinct(std::to_string(value("HOME").empty()) + std::to_string(value("XDG_DATA_HOME").empty()) + std::to_string(value("XDG_CONFIG_HOME").empty()) + std::to_string(value("XDG_RUNTIME_DIR").empty())
		+ std::to_string(fault) + std::to_string(size) + std::to_string(preexisting) + std::to_string(bool(realEntry)) + std::to_string(bool(effectiveEntry)) + std::to_string(ruid == euid));
	boost::system::error_code ec;
	boost::filesystem::remove_all(root, ec);
}

// ------------------------------------------------ P34: random numbers

template <typename T> static T someInteger(vf::Rng & r) {
	using L = std::numeric_limits<T>;
	switch (r.below(6)) {
		case 0: return L::max();
		case 1: return L::min();
		case 2: return (T) (L::max() - (T) r.below(4));
		case 3: return (T) r.below(5);
		case 4: return (T) (0 - (T) r.below(5));
		default: return (T) r.next();
	}
}
template <typename T> static T someReal(vf::Rng & r) {
	const T unit = (T) r.below(1u << 24) / (T) (1u << 24);
	switch (r.below(6)) {
		case 0: return 0;
		case 1: return (T) (int64_t) (r.below(2000)) - 1000;
		case 2: return unit - (T) 0.5;
		case 3: return (unit - (T) 0.5) * (T) 1e30;
		case 4: return (unit - (T) 0.5) * (T) 1e-30;
		default: return (unit - (T) 0.5) * (T) 1000;
	}
}
template <typename G, typename T> static void generator(const char * name, T a, T b, vf::Rng & r, bool integer) {
	if (b < a) std::swap(a, b);
	const unsigned seed = (unsigned) r.next();
	const string what = string(name) + " [" + std::to_string(a) + ", " + std::to_string(b) + "] seed " + std::to_string(seed);
	G g(a, b, seed), same(a, b, seed), free1(a, b), free2(a, b);
	const size_t n = 300;
	std::set<T> seen;
	bool equal = true;
	for (size_t m = 0; m < n; ++m) {
		const T v = g(), w = same(), x = free1(), y = free2();
		vf::check(v == w, "P34/seeded", what + ": " + std::to_string(v) + " and " + std::to_string(w) + " from the same seed");
		for (const T t : { v, x, y }) {
			// Real numbers are subject to rounding by one unit of the last place.
			const T top = integer ? b : (T) std::nextafter(b, std::numeric_limits<T>::infinity());
			vf::check(t >= a && t <= top, "P34/range", what + ": " + std::to_string(t));
		}
		equal = equal && x == y;
		seen.insert(v);
	}
	if (integer && (uint64_t) b - (uint64_t) a < 8) {
		vf::check(seen.size() == (uint64_t) b - (uint64_t) a + 1, "P34/range-values", what + ": " + std::to_string(seen.size()) + " different values");
		vf::count("small ranges");
	}
	if (integer && (uint64_t) b - (uint64_t) a > 1000000) vf::check(!equal, "P34/unseeded", what + ": two generators without seed give the same numbers");
	vf::count("random numbers", 4 * n);
	vf::distinct(string(name) + (a < 0 ? "-" : "+") + (b < 0 ? "-" : b == 0 ? "0" : "+") + (a == b ? "=" : "<"));
}
template <typename G, typename T> static void integers(const char * name, vf::Rng & r) {
	T a = someInteger<T>(r);
	T b = r.chance(1, 3) ? (T) std::min<__int128>((__int128) a + (__int128) r.below(8), std::numeric_limits<T>::max()) : someInteger<T>(r);
	generator<G, T>(name, a, b, r, true);
}
template <typename G, typename T> static void reals(const char * name, vf::Rng & r) {
	const T a = someReal<T>(r);
	generator<G, T>(name, a, r.chance(1, 5) ? a : someReal<T>(r), r, false);
}
static void randomNumbers(int64_t, vf::Rng & r) {
	integers<Util::UniformInt32, int>("int32", r);
	integers<Util::UniformInt64, long>("int64", r);
	integers<Util::UniformUInt32, unsigned>("uint32", r);
	integers<Util::UniformUInt64, unsigned long long>("uint64", r);
	integers<Util::UniformInt<short>, short>("int16", r);
	reals<Util::UniformDouble, double>("double", r);
	reals<Util::UniformFloat, float>("float", r);
	reals<Util::UniformReal<double>, double>("real", r);
}

// ------------------------------------------------ P34: identifiers

static void identifiers(int64_t, vf::Rng & r) {
	const size_t threads = 1 + r.below(4), each = 1 + r.below(40), children = r.below(3);
	std::vector<string> all;
	std::mutex mutex;
	const auto make = [&] (std::vector<string> & into) {
		for (size_t m = 0; m < each; ++m) {
			const UUID u, v;
			const UUID copy(u);
			const string s = u.asString();
			string hex;
			const auto array = u.asArray();
			for (size_t k = 0; k < 16; ++k) { char b[3]; snprintf(b, 3, "%02x", u.asBytes()[k]); hex += b; if (k == 3 || k == 5 || k == 7 || k == 9) hex += '-'; }
			vf::check(s == hex && toString(u) == hex, "P34/uuid-text", s + " for the bytes " + hex);
			vf::check(!memcmp(array.data(), u.asBytes(), 16) && !memcmp(u.asUUID().data, u.asBytes(), 16), "P34/uuid-bytes", s);
			const int order = memcmp(u.asBytes(), v.asBytes(), 16);
			vf::check((u < v) == (order < 0) && (u > v) == (order > 0) && (u <= v) == (order <= 0) && (u >= v) == (order >= 0) && (u == v) == (order == 0) && (u != v) == (order != 0)
				&& u == copy && !(u != copy) && u <= copy && u >= copy && !(u < copy) && !(u > copy), "P34/uuid-order", s + " and " + v.asString());
			into.push_back(s);
			into.push_back(v.asString());
		}
	};
	// One before, so that a state that children share would exist.
	make(all);
	for (size_t m = 0; m < children; ++m) {
		const Answer a = inChild([&] (const Say & say) { std::vector<string> v; make(v); string s; for (auto & t : v) s += t; say("all", s); });
		if (!vf::check(a.ended, "P34/uuid-child", "status " + std::to_string(a.status))) return;
		const string s = a.values.at("all");
		for (size_t k = 0; k + 36 <= s.size(); k += 36) all.push_back(s.substr(k, 36));
		vf::count("processes making identifiers");
	}
	std::vector<std::thread> ts;
	for (size_t m = 0; m < threads; ++m) ts.emplace_back([&] { std::vector<string> v; make(v); std::lock_guard<std::mutex> l(mutex); all.insert(all.end(), v.begin(), v.end()); });
	for (auto & t : ts) t.join();
	const std::set<string> different(all.begin(), all.end());
	vf::check(different.size() == all.size(), "P34/uuid-unique", std::to_string(all.size()) + " identifiers, of which " + std::to_string(different.size()) + " are different");
	vf::count("identifiers", all.size());
	vf::distinct(std::to_string(threads) + " " + std::to_string(children) + " " + std::to_string(each));
}

// ------------------------------------------------ P34: containers, vectors, pointers, streams, files, names, clocks, exceptions

static std::vector<int> someInts(vf::Rng & r) { std::vector<int> v; for (uint64_t n = r.below(7); n; --n) v.push_back((int) r.below(9)); return v; }
struct Base { int value; explicit Base(int v) : value(v) {} virtual ~Base() = default; };

static void collections(int64_t, vf::Rng & r) {
	using Util::Containers; using Util::Vectors; using Util::Memory;
	const auto a = someInts(r), b = someInts(r), c = someInts(r);
	auto joined = a; joined.insert(joined.end(), b.begin(), b.end());
	auto joined3 = joined; joined3.insert(joined3.end(), c.begin(), c.end());
	const std::list<int> lb(b.begin(), b.end());
	const std::deque<int> dc(c.begin(), c.end());
	{ auto d = a; Containers::append(d, lb); vf::check(d == joined, "P34/append", "list"); }
	{ auto d = a; Containers::append(d, lb, dc); vf::check(d == joined3, "P34/append", "list and deque"); }
	{ auto d = a; Vectors::append(d, b); vf::check(d == joined, "P34/append", "vector"); }
	{ auto d = a; Vectors::move(d, b); vf::check(d == joined, "P34/append", "moved vector"); }
	vf::check(Containers::concatenate(a, lb, dc) == joined3 && Containers::concatenate(a) == a && Containers::concatenate(a, b) == joined, "P34/concatenate", "");
	{
		const auto l = Containers::concatenate(lb, a);
		std::vector<int> e = b; e.insert(e.end(), a.begin(), a.end());
		vf::check(std::vector<int>(l.begin(), l.end()) == e, "P34/concatenate", "into a list");
	}
	const std::set<int> sa(a.begin(), a.end());
	for (int v = -1; v < 10; ++v) {
		const bool in = std::find(a.begin(), a.end(), v) != a.end();
		vf::check(Containers::contains(a, v) == in && Containers::contains(sa, v) == in, "P34/contains", std::to_string(v));
	}
	bool common = false;
	for (int v : b) common = common || sa.count(v);
	vf::check(Containers::contains(a, b) == common && Containers::contains(a, lb) == common && Containers::contains(sa, lb) == common, "P34/contains", "one of several");
	std::vector<string> texts; for (int v : a) texts.push_back(std::to_string(v));
	vf::check(Vectors::map<string, int>(a, [] (const int & v) { return std::to_string(v); }) == texts, "P34/map", "");
	vf::check(Vectors::toStringVector(a) == texts, "P34/string-vector", "");
	{
		const auto t32 = Vectors::toString32Vector(a);
		bool ok = t32.size() == texts.size();
		for (size_t m = 0; ok && m < texts.size(); ++m) ok = t32[m] == std::u32string(texts[m].begin(), texts[m].end());
		vf::check(ok, "P34/string-vector", "UTF-32");
	}
	string bytes; for (uint64_t n = r.below(20); n; --n) bytes += (char) r.below(256);
	const std::u32string wide(bytes.begin(), bytes.end());
	vf::check(Vectors::toCharVector(bytes) == std::vector<char>(bytes.begin(), bytes.end()) && Vectors::charsToString(Vectors::toCharVector(bytes)) == bytes
		&& Vectors::charsToString(Vectors::toCharVector(wide)) == wide && Vectors::charsToString(std::vector<char16_t>(bytes.begin(), bytes.end())) == std::u16string(bytes.begin(), bytes.end()), "P34/characters", vf::show(bytes));
	{
		const int x = (int) r.below(9), y = (int) r.below(9), z = (int) r.below(9);
		auto d = a, e = a;
		Vectors::pushBack(d, int(x), int(y), int(z));
		e.insert(e.end(), { x, y, z });
		vf::check(d == e && Vectors::pushBack(int(x), int(y), int(z)) == std::vector<int>({ x, y, z }) && Vectors::pushBack<int>().empty(), "P34/push-back", "");
	}
	{
		// Values with a key: the first element of the same key is replaced, or one is added.
		using E = std::pair<int, int>;
		std::vector<E> d, e;
		for (int n = 0; n < 12; ++n) {
			const E v((int) r.below(5), n);
			Vectors::pushBackOrReplace(d, E(v), [] (const E & p, const E & q) { return p.first == q.first; });
			const auto i = std::find_if(e.begin(), e.end(), [&] (const E & q) { return q.first == v.first; });
			if (i == e.end()) e.push_back(v); else *i = v;
			vf::check(d == e, "P34/push-back-or-replace", "after " + std::to_string(n));
		}
		std::vector<string> f;
		std::vector<string> g;
		for (int n = 0; n < 8; ++n) {
			const string t = std::to_string(r.below(4));
			Vectors::pushBackOrReplace(f, string(t), std::equal_to<string>(), [] (string & o, string && v) { o += v; });
			bool found = false;
			for (auto & o : g) if (o == t) { o += t; found = true; break; }
			if (!found) g.push_back(t);
			vf::check(f == g, "P34/push-back-or-replace", "strings with a replace function");
		}
	}
	{
		const int x = (int) r.below(9), y = (int) r.below(9);
		const auto u = Memory::makeUnique<int, Base>([] (const int & v) { return std::unique_ptr<Base>(new Base(v)); }, x, y);
		const auto s = Memory::makeShared<int, Base>([] (const int & v) { return std::make_shared<Base>(v); }, x, y, x);
		const auto sv = Memory::makeSharedV<int, Base>([] (const int & v) { return std::vector<std::shared_ptr<Base>>((size_t) v, std::make_shared<Base>(v)); }, x, y);
		bool ok = u.size() == 2 && u[0]->value == x && u[1]->value == y && s.size() == 3 && s[0]->value == x && s[1]->value == y && s[2]->value == x && s[0].use_count() == 1 && sv.size() == (size_t) (x + y);
		for (size_t m = 0; ok && m < sv.size(); ++m) ok = sv[m]->value == (m < (size_t) x ? x : y);
		vf::check(ok, "P34/pointers", std::to_string(x) + " " + std::to_string(y));
	}
	{
		// Sources one after another into one stream.
		std::ostringstream dst;
		string want;
		for (uint64_t n = 1 + r.below(4); n; --n) {
			string t; for (uint64_t k = r.below(3) ? r.below(6000) : 0; k; --k) t += (char) r.below(256);
			std::istringstream src(t);
			Util::Streams::consume(dst, src);
			want += t;
			vf::count(t.empty() ? "empty streams consumed" : "streams consumed");
		}
		dst << "end";
		vf::check(dst.str() == want + "end", "P34/consume", std::to_string(dst.str().size()) + " bytes instead of " + std::to_string(want.size() + 3));
		std::istringstream again(want), lines(want);
		vf::check(toString((std::istream &) again) == want, "P34/stream-text", "");
		std::vector<string> e;
		{ string l; for (char ch : want) { if (ch == '\n') { e.push_back(l); l.clear(); } else l += ch; } if (!l.empty()) e.push_back(l); }
		vf::check(Util::Streams::readLinesToVector(lines) == e, "P34/stream-lines", "");
	}
	{
		// Directories are no files.
		const Resource::File dir(vf::st().scratch);
		const auto refused = [&] (const char * name, auto f) {
			try { f(); vf::violation("P34/directory-read", name); } catch (const Exception::FileNotFoundException &) { vf::count("directories refused"); }
			catch (const std::exception & e) { vf::violation("P34/directory-read", string(name) + ": " + e.what()); }
		};
		refused("readToString", [&] { Util::Files::readToString(dir); });
		refused("readToVector", [&] { Util::Files::readToVector(dir); });
		refused("toLines", [&] { Util::Files::toLines(dir); });
	}
	{
		// Names of threads.
		std::vector<std::thread> ts;
		const string mine = "main" + std::to_string(r.next());
		System::ThreadName::setName("  " + mine + " ");
		for (int m = 0; m < 3; ++m) {
			const uint64_t seed = r.next();
			ts.emplace_back([seed] {
				vf::check(System::ThreadName::getName().empty(), "P34/thread-name", "a new thread is called " + System::ThreadName::getName());
				const string n = "\xc3\xa9 t " + std::to_string(seed);
				System::ThreadName::setName(n);
				std::this_thread::yield();
				vf::check(System::ThreadName::getName() == n, "P34/thread-name", System::ThreadName::getName() + " instead of " + n);
			});
		}
		for (auto & t : ts) t.join();
		vf::check(System::ThreadName::getName() == mine, "P34/thread-name", System::ThreadName::getName() + " instead of " + mine);
	}
	{
		using namespace std::chrono;
		System::SystemClock clock;
		const auto inside = [&] (const char * name, auto ask, auto unit) {
			using U = decltype(unit);
			const auto before = duration_cast<U>(system_clock::now().time_since_epoch());
			const auto got = ask();
			const auto after = duration_cast<U>(system_clock::now().time_since_epoch());
			vf::check(got >= before && got <= after, "P34/clock", string(name) + " " + std::to_string(got.count()) + " not between " + std::to_string(before.count()) + " and " + std::to_string(after.count()));
		};
		inside("now", [&] { return clock.now().time_since_epoch(); }, system_clock::duration());
		inside("nanotime", [&] { return clock.nanotime(); }, nanoseconds());
		inside("microtime", [&] { return clock.microtime(); }, microseconds());
		inside("millitime", [&] { return clock.millitime(); }, milliseconds());
		inside("centitime", [&] { return clock.centitime(); }, centiseconds());
		inside("decitime", [&] { return clock.decitime(); }, deciseconds());
		const auto day = [] { const time_t t = time(nullptr); tm g; gmtime_r(&t, &g); return std::to_string(g.tm_year + 1900) + "-" + std::to_string(g.tm_mon + 1) + "-" + std::to_string(g.tm_mday); };
		const string d0 = day();
		const auto t = clock.today();
		const string d1 = day(), got = std::to_string((int) t.year()) + "-" + std::to_string((unsigned) t.month()) + "-" + std::to_string((unsigned) t.day());
		vf::check(got == d0 || got == d1, "P34/clock", "today is " + got + ", not " + d0);
	}
	{
		// Exceptions say what, and where.
		string t = "text"; for (uint64_t n = r.below(30); n; --n) t += (char) r.range(1, 255);
		string line;
		try { line = std::to_string(__LINE__); ThrowBalauException(Exception::IllegalArgumentException, t); }
		catch (const Exception::BalauException & e) {
			vf::check(e.message == "IllegalArgument - " + t, "P34/exception", e.message);
			vf::check(e.fullMessage == "support.cpp:" + line + " - " + e.message && e.fullMessage == e.what() && toString(e) == e.fullMessage && ::toString((const std::exception &) e) == e.what(), "P34/exception", e.fullMessage);
			const Exception::IllegalArgumentException same("", t), different("", t + "."); const Exception::IllegalStateException type("", t);
			vf::check(e == same && !(e == different) && !(e == type), "P34/exception", "equality of " + e.message);
			vf::count("exceptions");
		}
	}
	enum class En : short { A = -3, B = 30000 };
	vf::check(Util::Enums::toUnderlying(En::A) == -3 && Util::Enums::toUnderlying(En::B) == 30000, "P34/enums", "");
	vf::count("collections");
	vf::distinct(std::to_string(a.size()) + " " + std::to_string(b.size()) + " " + std::to_string(c.size()) + (common ? "c" : "-"));
}

// ------------------------------------------------ P34: ports and endpoints

namespace asio = boost::asio;

// The port can be bound as a listener would bind it.
static bool bindable(unsigned short port) {
	const int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
	int one = 1;
	setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
	sockaddr_in a {};
	a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = INADDR_ANY;
	const bool ok = bind(s, (sockaddr *) &a, sizeof a) == 0;
	close(s);
	return ok;
}

static void ports(int64_t, vf::Rng & r) {
	// A block of ports for each process of the check (below the ephemeral ports).
	const unsigned short block = (unsigned short) (10000 + (getpid() % 500) * 40);
	const unsigned short start = (unsigned short) (block + r.below(10)), n = (unsigned short) (1 + r.below(12));
	std::vector<int> held;
	std::set<unsigned short> occupied;
	const auto hold = [&] (unsigned short port) {
		const int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
		int one = 1;
		setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
		sockaddr_in a {};
		a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = r.chance(1, 2) ? htonl(INADDR_LOOPBACK) : INADDR_ANY;
		if (bind(s, (sockaddr *) &a, sizeof a) == 0 && listen(s, 1) == 0) { held.push_back(s); occupied.insert(port); return true; }
		close(s);
		return false;
	};
	const bool all = r.chance(1, 4);
	for (unsigned short m = 0; m < n; ++m) if (all || r.chance(2, 3)) hold((unsigned short) (start + m));

	const auto fds = [] { size_t k = 0; for (auto & e : boost::filesystem::directory_iterator("/proc/self/fd")) { (void) e; ++k; } return k; };
	const size_t before = fds();
	unsigned short got = 0;
	string refused;
	// Another process may take and leave ports meanwhile: what is wrong is wrong repeatedly.
	string wrong;
	for (int attempt = 0; attempt < 3; ++attempt) {
		wrong.clear(); refused.clear(); got = 0;
		try { got = Testing::NetworkTesting::getFreeTcpPort(start, n); } catch (const Exception::NetworkException & e) { refused = e.what(); }
		if (!refused.empty()) {
			for (unsigned short m = 0; m < n; ++m) if (bindable((unsigned short) (start + m))) wrong = "refused, but port " + std::to_string(start + m) + " is free";
		} else if (got < start || got >= start + n) wrong = "port " + std::to_string(got) + " is not in the range";
		else {
			if (!bindable(got)) wrong = "port " + std::to_string(got) + " is in use";
			for (unsigned short p = start; p < got; ++p) if (bindable(p)) wrong = "port " + std::to_string(p) + " is free before " + std::to_string(got);
		}
		if (wrong.empty()) break;
		usleep(20000);
	}
	vf::check(wrong.empty(), "P34/free-port", "start " + std::to_string(start) + " count " + std::to_string(n) + ": " + wrong);
	vf::check(fds() == before, "P34/free-port-descriptors", std::to_string(before) + " open before, " + std::to_string(fds()) + " after");
	vf::count(refused.empty() ? "free ports found" : "no free port");

	// Initialisation with a free port: ports in use are tried again, other failures are not.
	const size_t attempts = 1 + r.below(12), inUse = r.below(14);
	const int other = (int) r.below(4);
	size_t calls = 0;
	unsigned short used = 0;
	if (occupied.empty()) hold((unsigned short) (start + n));
	if (!occupied.empty()) {
		const unsigned short taken = *occupied.begin();
		const unsigned short answer = (unsigned short) r.below(65536);
		string result;
		try {
			used = Testing::NetworkTesting::initialiseWithFreeTcpPort([&] () -> unsigned short {
				if (++calls > inUse) {
					if (other == 0) ThrowBalauException(Exception::NetworkException, "The server is tired");
					if (other == 1) throw std::runtime_error("other");
					return answer;
				}
				// As the listener does.
				asio::io_context context;
				asio::ip::tcp::acceptor acceptor(context);
				boost::system::error_code e;
				acceptor.open(asio::ip::tcp::v4(), e);
				acceptor.set_option(asio::socket_base::reuse_address(true), e);
				acceptor.bind({ asio::ip::tcp::v4(), taken }, e);
				if (!e) { vf::violation("P34/harness", "the occupied port could be bound"); return 0; }
				ThrowBalauException(Exception::NetworkException, ::toString(e.message(), " - bind"));
				return 0;
			}, attempts);
			result = "port " + std::to_string(used);
		} catch (const Exception::NetworkException & e) { result = string(e.what()).find("tired") != string::npos ? "tired" : "network"; } catch (const std::runtime_error &) { result = "other"; }
		const string want = inUse >= attempts ? "network" : other == 0 ? "tired" : other == 1 ? "other" : "port " + std::to_string(answer);
		vf::check(result == want && calls == std::min(attempts, inUse + 1), "P34/free-port-attempts", result + " after " + std::to_string(calls) + " calls instead of " + want + " (" + std::to_string(attempts) + " attempts, "
			+ std::to_string(inUse) + " times in use)");
		vf::count(inUse >= attempts ? "attempts exhausted" : inUse ? "attempts repeated" : "attempts at once");
	}
	for (int s : held) close(s);
}

static void endpoints(int64_t, vf::Rng & r) {
	using Network::Endpoint;
	for (int n = 0; n < 20; ++n) {
		const unsigned short port = r.of<unsigned short>({ 0, 1, 80, 8080, 65535, (unsigned short) r.below(65536) });
		string ip;
		const bool v6 = r.chance(1, 2);
		if (v6) {
			if (r.chance(1, 3)) ip = r.of<string>({ "::1", "::", "fe80::1", "2001:db8::8:800:200c:417a", "::ffff:1.2.3.4" });
			else for (int m = 0; m < 8; ++m) { char b[8]; snprintf(b, sizeof b, r.chance(1, 2) ? "%x" : "%04X", (unsigned) r.below(r.chance(1, 3) ? 1 : 65536)); ip += (m ? ":" : "") + string(b); }
		} else for (int m = 0; m < 4; ++m) ip += (m ? "." : "") + std::to_string(r.below(256));
		unsigned char want[16], got[16];
		if (inet_pton(v6 ? AF_INET6 : AF_INET, ip.c_str(), want) != 1) { vf::violation("P34/harness", ip); return; }
		const auto is = [&] (const string & text, unsigned short wantPort) {
			Endpoint e;
			try { fromString(e, text); } catch (const std::exception & x) { vf::violation("P34/endpoint", text + ": " + x.what()); return; }
			const string a = e.address().to_string();
			vf::check(e.address().is_v6() == v6 && inet_pton(v6 ? AF_INET6 : AF_INET, a.c_str(), got) == 1 && !memcmp(want, got, v6 ? 16 : 4) && e.port() == wantPort, "P34/endpoint", text + " is " + a + " port " + std::to_string(e.port()));
			// Back and forth.
			Endpoint back;
			try { fromString(back, toString(e)); vf::check(back == e, "P34/endpoint-text", text + " via " + toString(e)); } catch (const std::exception & x) { vf::violation("P34/endpoint-text", toString(e) + ": " + x.what()); }
			vf::count(v6 ? "IPv6 endpoints" : "IPv4 endpoints");
		};
		if (v6) { is("[" + ip + "]:" + std::to_string(port), port); is("[" + ip + "]", 8080); }
		else { is(ip + ":" + std::to_string(port), port); is(ip, 8080); }
		const auto made = Network::makeEndpoint(ip, port);
		const auto fresh = Network::newEndpoint(ip.c_str(), port);
		vf::check(made == *fresh && made.port() == port && inet_pton(v6 ? AF_INET6 : AF_INET, made.address().to_string().c_str(), got) == 1 && !memcmp(want, got, v6 ? 16 : 4), "P34/endpoint-made", ip);
		{
			Endpoint e;
			fromString(e, std::to_string(port));
			vf::check(e.address().to_string() == "127.0.0.1" && e.port() == port, "P34/endpoint-port", toString(e));
		}
		// Broken ones.
		string bad;
		switch (r.below(9)) {
			case 0: bad = ip + (v6 ? ":x" : ".1"); break;
			case 1: bad = std::to_string(65536 + r.below(100000)); break;
			case 2: bad = (v6 ? "[" + ip + "]" : ip) + ":" + std::to_string(65536 + r.below(1000000)); break;
			case 3: bad = (v6 ? "[" + ip + "]" : ip) + ":-" + std::to_string(1 + r.below(70000)); break;
			case 4: bad = (v6 ? "[" + ip + "]" : ip) + ":8o"; break;
			case 5: bad = ""; break;
			case 6: bad = "[" + ip; break;
			case 7: bad = "[1.2.3.4]"; break;
			default: bad = "localhost:" + std::to_string(port); break;
		}
		Endpoint e;
		try { fromString(e, bad); vf::violation("P34/endpoint-broken", "\"" + bad + "\" is taken as " + toString(e)); } catch (const std::exception &) { vf::count("broken endpoints refused"); }
	}
}

static vf::Mode m1("directories", directories), m2("random", randomNumbers), m3("identifiers", identifiers), m4("collections", collections), m5("ports", ports), m6("endpoints", endpoints);
