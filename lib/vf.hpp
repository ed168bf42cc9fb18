//
// vf.hpp : the run-time monitoring kit shared by every harness in /verif.
//
// A harness registers modes. A mode is a function of (case number, rng); the
// driver (lib/vf.py) asks for a range of case numbers, and this file takes care of
// deterministic randomness, progress marking (so that a crash or a hang can be
// attributed to a case), violation records, event counters, and the set of distinct
// non-trivial observations.
//
#pragma once
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <dirent.h>

namespace vf {

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + (int64_t) below((uint64_t) (b - a + 1)); }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	template <typename C> auto & pick(C & c) { return c[below(c.size())]; }
	template <typename T> T of(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
	Rng r(a ^ (b * 0xD6E8FEB86659FD93ull));
	r.next();
	return r.next() ^ b;
}
inline uint64_t hashBytes(const void * p, size_t n, uint64_t h = 1469598103934665603ull) {
	auto c = (const unsigned char *) p;
	for (size_t m = 0; m < n; ++m) { h ^= c[m]; h *= 1099511628211ull; }
	return h;
}
inline uint64_t hashStr(const std::string & s, uint64_t h = 1469598103934665603ull) {
	return hashBytes(s.data(), s.size(), h);
}

inline std::string jsonEscape(const std::string & s) {
	std::string o;
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
		else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } // bytes shown as latin-1
		else o += (char) c;
	}
	return o;
}

// Printable form of arbitrary bytes, for details and samples.
inline std::string show(const std::string & s, size_t limit = 160) {
	std::string o = "\"";
	char b[8];
	for (size_t m = 0; m < s.size(); ++m) {
		if (m >= limit) { o += "...("; o += std::to_string(s.size()); o += " bytes)"; break; }
		unsigned char c = (unsigned char) s[m];
		if (c == '\n') o += "\\n";
		else if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
		else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
		else o += (char) c;
	}
	return o + "\"";
}

struct State {
	uint64_t seed = 1;
	std::string mode;
	std::string out = "/dev/stdout";
	std::string scratch = "/tmp";
	bool replay = false;
	bool thorough = false;
	std::atomic<int64_t> currentCase { -1 };
	std::mutex m;
	FILE * f = nullptr;
	std::map<std::string, uint64_t> counters;
	std::unordered_set<uint64_t> distinct;
	std::vector<std::string> samples;
	std::map<std::string, int> perKey;
	volatile int64_t * progress = nullptr;
	bool dumped = false;
};
inline State & st() { static State * s = new State; return *s; }

inline void dump(bool done) {
	State & s = st();
	if (s.dumped || !s.f) return;
	s.dumped = true;
	fprintf(s.f, "{\"t\":\"stats\",\"done\":%s,\"counters\":{", done ? "true" : "false");
	bool first = true;
	for (auto & c : s.counters) {
		fprintf(s.f, "%s\"%s\":%llu", first ? "" : ",", jsonEscape(c.first).c_str(), (unsigned long long) c.second);
		first = false;
	}
	fprintf(s.f, "},\"samples\":[");
	first = true;
	for (auto & c : s.samples) {
		fprintf(s.f, "%s\"%s\"", first ? "" : ",", jsonEscape(c).c_str());
		first = false;
	}
	fprintf(s.f, "]}\n");
	fflush(s.f);
	FILE * d = fopen((s.out + ".distinct").c_str(), "ab");
	if (d) {
		for (uint64_t h : s.distinct) fwrite(&h, 8, 1, d);
		fclose(d);
	}
}

/// Record a violation. The key names the kind of failure (stable across runs).
inline void violation(const std::string & key, const std::string & detail) {
	State & s = st();
	std::lock_guard<std::mutex> l(s.m);
	int & n = s.perKey[key];
	if (++n > 3) return;
	fprintf(s.f, "{\"t\":\"v\",\"key\":\"%s\",\"case\":%lld,\"mode\":\"%s\",\"detail\":\"%s\"}\n"
		, jsonEscape(key).c_str(), (long long) s.currentCase.load(), s.mode.c_str(), jsonEscape(detail.substr(0, 4000)).c_str());
	fflush(s.f);
}
inline void count(const std::string & name, uint64_t n = 1) {
	State & s = st();
	std::lock_guard<std::mutex> l(s.m);
	s.counters[name] += n;
}
inline void distinct(uint64_t h) {
	State & s = st();
	std::lock_guard<std::mutex> l(s.m);
	s.distinct.insert(h);
}
inline void distinct(const std::string & k) { distinct(hashStr(k)); }
inline void sample(const std::string & text) {
	State & s = st();
	std::lock_guard<std::mutex> l(s.m);
	if (s.samples.size() < 4) s.samples.push_back(text.substr(0, 700));
}
inline bool check(bool ok, const std::string & key, const std::string & detail) {
	if (!ok) violation(key, detail);
	return ok;
}
/// Record violation and leave now (state of the process is not trustworthy any more).
[[noreturn]] inline void fatalViolation(const std::string & key, const std::string & detail) {
	violation(key, detail);
	{ State & s = st(); std::lock_guard<std::mutex> l(s.m); dump(false); }
	_exit(77);
}

using ModeFn = std::function<void (int64_t, Rng &)>;
inline std::map<std::string, ModeFn> & modes() { static auto * m = new std::map<std::string, ModeFn>; return *m; }
struct Mode { Mode(const char * name, ModeFn f) { modes()[name] = std::move(f); } };

// ---------------------------------------------------------------- quiescence monitor

// The threads whose progress is watched: those that the harness started.
inline std::set<int> & watched() { static auto * w = new std::set<int>; return *w; }
inline std::mutex & watchedMutex() { static auto * w = new std::mutex; return *w; }
struct Watch {
	int tid = (int) gettid();
	Watch() { std::lock_guard<std::mutex> l(watchedMutex()); watched().insert(tid); }
	~Watch() { std::lock_guard<std::mutex> l(watchedMutex()); watched().erase(tid); }
};

// Sum of the scheduling activity of every watched thread, or true in 'runnable' when
// one of them is not asleep.
inline uint64_t threadActivity(bool & runnable) {
	runnable = false;
	uint64_t sum = 0;
	DIR * d = opendir("/proc/self/task");
	if (!d) { runnable = true; return 0; }
	const int self = (int) gettid();
	while (auto * e = readdir(d)) {
		int tid = atoi(e->d_name);
		if (tid <= 0 || tid == self) continue;
		{ std::lock_guard<std::mutex> l(watchedMutex()); if (!watched().empty() && !watched().count(tid)) continue; }
		char p[64], buf[1024];
		snprintf(p, sizeof p, "/proc/self/task/%d/stat", tid);
		int fd = open(p, O_RDONLY);
		if (fd < 0) continue;
		ssize_t n = read(fd, buf, sizeof buf - 1);
		close(fd);
		if (n <= 0) continue;
		buf[n] = 0;
		char * c = strrchr(buf, ')');
		if (!c) continue;
		if (c[2] == 'R' || c[2] == 'D') runnable = true;
		unsigned long ut = 0, stt = 0;
		sscanf(c + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &stt);
		sum += ut + stt;
		snprintf(p, sizeof p, "/proc/self/task/%d/status", tid);
		fd = open(p, O_RDONLY);
		if (fd < 0) continue;
		char big[4096];
		n = read(fd, big, sizeof big - 1);
		close(fd);
		if (n <= 0) continue;
		big[n] = 0;
		for (const char * k : { "\nvoluntary_ctxt_switches:", "\nnonvoluntary_ctxt_switches:" }) {
			char * q = strstr(big, k);
			if (q) sum += strtoul(q + strlen(k), nullptr, 10);
		}
	}
	closedir(d);
	return sum;
}

/// Wait until done() is true. Returns false only when, for 'quietSeconds' in a row,
/// every other thread stayed asleep with no scheduling activity at all and done() did
/// not become true: a proof that nothing will ever happen (threads that wait with a
/// time-out wake up and count as activity). Never judges by elapsed time alone.
inline bool awaitOrStuck(const std::function<bool ()> & done, double quietSeconds = 6.0) {
	uint64_t last = ~0ull;
	auto since = std::chrono::steady_clock::now();
	int spins = 0;
	while (!done()) {
		if (++spins < 200) { std::this_thread::yield(); continue; }
		if (spins < 1200) { usleep(200); continue; }
		usleep(100000);
		bool runnable;
		uint64_t a = threadActivity(runnable);
		auto now = std::chrono::steady_clock::now();
		if (runnable || a != last) { last = a; since = now; continue; }
		if (std::chrono::duration<double>(now - since).count() > quietSeconds) return done();
	}
	return true;
}

inline void pause(Rng & r) {
	switch (r.below(8)) {
		case 0: case 1: case 2: break;
		case 3: case 4: std::this_thread::yield(); break;
		case 5: { volatile int x = 0; for (uint64_t n = r.below(400); n; --n) { x = x + 1; } break; }
		case 6: usleep((useconds_t) r.below(30)); break;
		default: usleep((useconds_t) r.below(300)); break;
	}
}

} // namespace vf

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

#ifndef VF_NO_MAIN
int main(int argc, char ** argv) {
	using namespace vf;
	State & s = st();
	int64_t from = 0, to = 1;
	for (int m = 1; m + 1 < argc; m += 2) {
		std::string k = argv[m], v = argv[m + 1];
		if (k == "--mode") s.mode = v;
		else if (k == "--seed") s.seed = strtoull(v.c_str(), nullptr, 10);
		else if (k == "--from") from = atoll(v.c_str());
		else if (k == "--to") to = atoll(v.c_str());
		else if (k == "--out") s.out = v;
		else if (k == "--scratch") s.scratch = v;
		else if (k == "--tier") s.thorough = v == "thorough";
	}
	auto it = modes().find(s.mode);
	if (it == modes().end()) { fprintf(stderr, "unknown mode %s\n", s.mode.c_str()); return 2; }
	s.f = fopen(s.out.c_str(), "a");
	if (!s.f) { perror("out"); return 2; }
	int pfd = open((s.out + ".prog").c_str(), O_RDWR | O_CREAT, 0644);
	if (pfd >= 0 && ftruncate(pfd, 16) == 0) {
		void * p = mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, pfd, 0);
		if (p != MAP_FAILED) s.progress = (int64_t *) p;
	}
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback([] { dump(false); });
	uint64_t modeHash = hashStr(s.mode);
	for (int64_t c = from; c < to; ++c) {
		s.currentCase = c;
		if (s.progress) s.progress[0] = c;
		Rng r(mix(mix(s.seed, modeHash), (uint64_t) c));
		it->second(c, r);
		count("cases:" + s.mode);
	}
	if (s.progress) s.progress[0] = to;
	dump(true);
	fflush(stdout);
	fflush(stderr);
	fclose(s.f);
	_exit(0);
}
#endif
