// runner.cpp : monitor of the test runner (P25). Every case is a process of its own which
// builds a random plan of test groups and runs the runner; the tests record what happens in
// shared memory, and the parent compares this with all that the runner reports.
#include <vf.hpp>
#include <Balau/Testing/TestRunner.hpp>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sstream>

using namespace Balau;
using namespace Balau::Testing;

// ------------------------------------------------ the plan and the record

enum Outcome { Pass, Fail, Throw, ThrowOther, Ignore, IgnoreThenFail, Signal, Segfault, Exit, ExitNow, Terminate };
static const char * const outcomeNames[] { "passes", "fails an assertion", "throws", "throws no exception", "is ignored", "is ignored and fails", "raises a signal", "accesses null", "calls exit", "calls _exit", "terminates" };
static bool crashes(int o) { return o >= Signal; }

struct TestPlan {
	std::string name;
	int outcome = Pass;
	int detail = 0;         // signal or status
	size_t text = 0;        // length of the text of a failure
	int delay = 0;
	int logs = 0;
};
struct GroupPlan {
	int kind = 0;
	unsigned models = 0;    // 0: the default constructor
	int setup = Pass, teardown = Pass; // Pass, Fail, Throw, ThrowOther, Signal
	std::vector<TestPlan> tests;
};
struct Plan {
	std::vector<GroupPlan> groups;
	ExecutionModel model = SingleThreaded;
	int form = 0;           // overload of run
	int generator = 0;      // 0 recording, 1 none
	bool folder = false, namespaces = false;
	unsigned concurrency = 0;
	std::vector<std::string> selection; // as given
	std::vector<std::string> patterns;
	bool modelGiven = true, help = false, moreWriters = false;
};

static constexpr int maxGroups = 8, maxTests = 14;
struct Record {
	std::atomic<int> runs[maxGroups][maxTests], pids[maxGroups][maxTests];
	std::atomic<int> setups[maxGroups], teardowns[maxGroups];
	std::atomic<int> running, mostRunning, progress, result, returned, names;
	char name[600][96];
};
static Record * record;
static const Plan * plan;
static std::string outPath;

// Shared memory that the runner creates is removed by the parent afterwards.
extern "C" int __real_shm_open(const char *, int, mode_t);
extern "C" int __wrap_shm_open(const char * name, int flags, mode_t mode) {
	if (record && (flags & O_CREAT)) {
		const int n = record->names++;
		if (n < 600) snprintf(record->name[n], sizeof record->name[n], "%s", name);
	}
	return __real_shm_open(name, flags, mode);
}

static std::string messageOf(int g, int t, size_t length) {
	std::string s = "<&\"'message " + std::to_string(g) + "." + std::to_string(t) + ">";
	for (size_t m = s.size(); m < length; ++m) s += (char) ('a' + (m * 7 + (size_t) t) % 26);
	return s + "#";
}

static void enterBody() {
	record->progress++;
	const int now = ++record->running;
	int most = record->mostRunning;
	while (now > most && !record->mostRunning.compare_exchange_weak(most, now)) {}
}

[[noreturn]] static void bringDown(int outcome, int detail) {
	for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL }) signal(s, SIG_DFL);
	switch (outcome) {
		case Signal: signal(detail, SIG_DFL); raise(detail); break;
		case Segfault: { volatile intptr_t where = 8; *(volatile int *) where = 1; break; }
		case Exit: exit(detail);
		case ExitNow: _exit(detail);
		default: std::terminate();
	}
	_exit(111);
}

template <typename Self> struct Common : public TestGroup<Self> {
	int index = -1;
	Common() = default; // the static instance
	Common(int index_, unsigned models) : TestGroup<Self>(models), index(index_) { add(); }
	Common(int index_, bool) : TestGroup<Self>(), index(index_) { add(); }

	template <int K> void test() { body(K); }

	void add() {
		const auto & tests = plan->groups[(size_t) index].tests;
		addFrom<0>(tests);
	}
	template <int K> void addFrom(const std::vector<TestPlan> & tests) {
		if constexpr (K < maxTests) {
			if (K >= (int) tests.size()) return;
			this->registerTestCase((void (Self::*)()) &Common::template test<K>, tests[K].name);
			addFrom<K + 1>(tests);
		}
	}
	void hook(int mode, const char * what) {
		switch (mode) {
			case Fail: AssertFail(std::string("hook ") + what);
			case Throw: throw std::runtime_error(std::string("hook ") + what);
			case ThrowOther: throw 3;
			case Signal: bringDown(Signal, SIGKILL);
			default: break;
		}
	}
	void setup() override {
		record->progress++;
		record->setups[index]++;
		hook(plan->groups[(size_t) index].setup, "setup");
	}
	void teardown() override {
		record->progress++;
		record->teardowns[index]++;
		hook(plan->groups[(size_t) index].teardown, "teardown");
	}
	void body(int k) {
		const TestPlan & t = plan->groups[(size_t) index].tests[(size_t) k];
		enterBody();
		record->runs[index][k]++;
		record->pids[index][k] = getpid();
		for (int m = 0; m < t.logs; ++m) switch (m % 4) {
			case 0: this->logLine("a line of a test"); break;
			case 1: this->log("some text, ", m, " of a test\n"); break;
			case 2: this->logLine(); break;
			default: this->renderResult(std::string("one\ntwo"), std::string("one\nthree\n"));
		}
		if (t.delay) usleep((useconds_t) t.delay);
		record->running--;
		switch (t.outcome) {
			case Pass: AssertThat(t.detail, is(t.detail)); return;
			case Fail: if (t.detail & 1) { AssertThat(messageOf(index, k, t.text), t.detail, is(t.detail + 1)); return; } AssertFail(messageOf(index, k, t.text));
			case Throw: throw std::runtime_error(messageOf(index, k, t.text));
			case ThrowOther: throw 5;
			case Ignore: this->ignore(); return;
			case IgnoreThenFail: this->ignore(); AssertFail(messageOf(index, k, t.text));
			default: bringDown(t.outcome, t.detail);
		}
	}
};

namespace one {
struct Alpha : Common<Alpha> { using Common::Common; };
struct Beta : Common<Beta> { using Common::Common; };
template <typename T> struct Typed : Common<Typed<T>> { using Common<Typed<T>>::Common; };
}
namespace two {
struct Alpha : Common<Alpha> { using Common::Common; };
struct Gamma_Test2 : Common<Gamma_Test2> { using Common::Common; };
}
namespace deep { namespace er {
struct Alphabet : Common<Alphabet> { using Common::Common; };
template <int N, typename T> struct Numbered : Common<Numbered<N, T>> { using Common<Numbered<N, T>>::Common; };
} }
struct Global : Common<Global> { using Common::Common; };

template <typename G> static void create(int index, unsigned models) {
	if (models) new G(index, models); else new G(index, true);
}
struct Kind { const char * name; void (* make)(int, unsigned); };
static const Kind kinds[] {
	{ "Alpha", create<one::Alpha> }, { "Beta", create<one::Beta> }, { "Alpha", create<two::Alpha> }, { "Gamma_Test2", create<two::Gamma_Test2> },
	{ "Alphabet", create<deep::er::Alphabet> }, { "Global", create<Global> },
	{ "Typed<int>", create<one::Typed<int>> }, { "Typed<two::Alpha>", create<one::Typed<two::Alpha>> }, { "Numbered<3, one::Typed<char> >", create<deep::er::Numbered<3, one::Typed<char>>> },
};

// ------------------------------------------------ what the runner says

class FileWriter : public TestWriter {
	public: void writeString(const std::string & s) override {
		record->progress++;
		const int fd = open(outPath.c_str(), O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
		if (fd < 0 || ::write(fd, s.data(), s.size()) != (ssize_t) s.size()) _exit(3);
		close(fd);
	}
	public: std::unique_ptr<TestWriter> clone() const override { return std::unique_ptr<TestWriter>(new FileWriter()); }
};

using Results = std::vector<std::pair<std::string, int>>; // name and result
static void put(FILE * f, const std::string & s) { fprintf(f, "%zu %s\n", s.size(), s.c_str()); }

class Recorder : public Testing::Impl::TestReportGenerator {
	Reporters::SurefireTestReportGenerator xml;
	std::string path;
	public: explicit Recorder(std::string p) : path(std::move(p)) {}
	public: void generate(const Testing::Impl::TestGroupBase & group, const std::chrono::nanoseconds & d, const std::vector<const Testing::Impl::TestResult *> & results) override {
		FILE * f = fopen(path.c_str(), "a");
		if (!f) _exit(3);
		fprintf(f, "group %zu %s\n", results.size(), group.getGroupName().c_str());
		long long sum = 0;
		for (auto r : results) { fprintf(f, "result %d %zu %s\n", (int) r->result, r->resultText.size(), r->testName.c_str()); sum += r->duration; }
		if (sum != d.count()) fprintf(f, "duration %lld %lld\n", sum, (long long) d.count());
		fclose(f);
		xml.setOutputFolder(outputFolder);
		xml.generate(group, d, results);
	}
};

static bool globMatches(const char * p, const char * s) {
	for (; *p; ++p, ++s) {
		if (*p == '*') { for (;; ++s) { if (globMatches(p + 1, s)) return true; if (!*s) return false; } }
		if (!*s || (*p != '?' && *p != *s)) return false;
	}
	return !*s;
}

static std::string readAll(const std::string & p) {
	std::ifstream f(p);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

// ------------------------------------------------ plans

static std::string identifier(vf::Rng & r) {
	std::string s;
	const bool shortName = r.chance(1, 3);
	for (uint64_t n = shortName ? 1 + r.below(2) : 1 + r.below(18); n; --n) s += shortName ? (char) r.range('a', 'b') : "abcdefgXYZ_019"[r.below(14)];
	return s;
}

static Plan makePlan(vf::Rng & r, bool threadsOnly) {
	Plan p;
	p.model = threadsOnly ? WorkerThreads : r.of({ SingleThreaded, WorkerThreads, WorkerProcesses, WorkerProcesses, ProcessPerTest, ProcessPerTest });
	const bool isolated = p.model == WorkerProcesses || p.model == ProcessPerTest;
	const bool crashing = isolated && r.chance(2, 3);
	const bool allPass = r.chance(1, 6);
	p.form = (int) r.below(4);
	p.generator = r.chance(1, 8) ? 1 : 0;
	p.folder = r.chance(1, 2);
	p.namespaces = r.chance(1, 5);
	const bool heavy = r.chance(1, 60);
	p.concurrency = r.chance(1, 3) ? 1 : r.chance(1, 4) ? 2 : heavy ? (unsigned) r.range(60, 300) : (unsigned) r.range(2, 7);
	if (r.chance(1, 12)) p.concurrency = 0;
	std::set<std::string> used;
	std::set<int> kindsUsed;
	const int groups = (int) (r.chance(1, 30) ? 0 : 1 + r.below(maxGroups));
	for (int g = 0; g < groups; ++g) {
		GroupPlan gp;
		gp.kind = (int) r.below(sizeof kinds / sizeof kinds[0]);
		gp.models = r.chance(2, 3) ? 0 : (unsigned) r.range(1, 15);
		if (!allPass && r.chance(1, 8)) gp.setup = r.of({ (int) Fail, (int) Throw, (int) ThrowOther, crashing ? (int) Signal : (int) Fail });
		if (!allPass && r.chance(1, 8)) gp.teardown = r.of({ (int) Fail, (int) Throw, (int) ThrowOther, crashing ? (int) Signal : (int) Fail });
		for (uint64_t n = r.chance(1, 12) ? 0 : 1 + r.below(r.chance(1, 3) ? maxTests : 5); n; --n) {
			TestPlan t;
			do t.name = identifier(r); while (!used.insert(std::string(kinds[gp.kind].name) + "::" + t.name).second);
			if (!allPass && !r.chance(1, 2)) t.outcome = r.of({ (int) Fail, (int) Fail, (int) Throw, (int) ThrowOther, (int) Ignore, (int) IgnoreThenFail });
			if (allPass && r.chance(1, 6)) t.outcome = Ignore;
			if (crashing && !allPass && r.chance(1, 4)) t.outcome = (int) r.range(Signal, Terminate);
			t.detail = t.outcome == Signal ? r.of({ SIGSEGV, SIGKILL, SIGABRT, SIGFPE, SIGTERM, SIGBUS, SIGILL, SIGPIPE }) : t.outcome == Exit || t.outcome == ExitNow ? r.of({ 0, 0, 1, 7, 255 }) : (int) r.below(100);
			t.text = r.chance(1, 8) ? r.below(12000) : r.chance(1, 6) ? (size_t) r.range(1700, 2300) : r.below(60);
			t.delay = r.chance(1, 3) ? (int) r.below(r.chance(1, 10) ? 60000 : 3000) : 0;
			t.logs = r.chance(1, 6) ? (int) r.below(5) : 0;
			gp.tests.push_back(std::move(t));
		}
		p.groups.push_back(std::move(gp));
	}
	p.modelGiven = p.model != SingleThreaded || r.chance(1, 2);
	p.help = p.form % 2 == 0 && r.chance(1, 40);
	p.moreWriters = r.chance(1, 2);
	if (p.form % 2 == 0 && r.chance(1, 2)) { // selections
		std::vector<std::string> all;
		for (auto & g : p.groups) for (auto & t : g.tests) all.push_back(std::string(kinds[g.kind].name) + "::" + t.name);
		for (uint64_t n = 1 + r.below(4); n; --n) {
			std::string s = all.empty() ? "x" : r.pick(all);
			if (s.find(',') != std::string::npos || s.find(' ') != std::string::npos) s = "Numbered*";
			switch (r.below(7)) {
				case 0: s = s.substr(0, s.find(':')) + "::*"; break;
				case 1: s[r.below(s.size())] = '?'; break;
				case 2: s = "*" + s.substr(r.below(s.size())); break;
				case 3: s = s.substr(0, r.below(s.size() + 1)) + "*"; break;
				case 4: { const size_t f = r.below(s.size()); s = s.substr(0, f) + "*" + s.substr(f + r.below(s.size() - f)); break; }
				case 5: if (r.chance(1, 3)) s = s.substr(0, r.below(s.size()) + 1); break;
				default: break;
			}
			if (s == "*" && r.chance(9, 10)) s = "Alpha::?*";
			p.patterns.push_back(s);
			if (p.selection.empty() || r.chance(1, 2)) p.selection.push_back(s);
			else p.selection.back() += r.of({ ",", ", ", " , ", " ", "  " }) + s;
		}
	}
	return p;
}

static std::string describe(const Plan & p) {
	std::string s = toString(p.model) + ", concurrency " + std::to_string(p.concurrency) + ", form " + std::to_string(p.form) + (p.folder ? ", reports" : "") + (p.generator ? ", no generator" : "");
	for (auto & x : p.selection) s += ", selection " + vf::show(x);
	for (auto & g : p.groups) {
		s += "; " + std::string(kinds[g.kind].name) + " models " + std::to_string(g.models);
		if (g.setup) s += std::string(" setup ") + outcomeNames[g.setup];
		if (g.teardown) s += std::string(" teardown ") + outcomeNames[g.teardown];
		s += ":";
		for (auto & t : g.tests) s += " " + t.name + " " + outcomeNames[t.outcome] + "(" + std::to_string(t.detail) + "," + std::to_string(t.text) + ")";
	}
	return s;
}

// ------------------------------------------------ running it

[[noreturn]] static void runIt(const Plan & p, const std::string & dir) {
	setpgid(0, 0);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	vf::st().dumped = true;
	const int out = open((dir + "/stdout").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600);
	dup2(out, 1);
	for (size_t g = 0; g < p.groups.size(); ++g) kinds[p.groups[g].kind].make((int) g, p.groups[g].models);
	std::shared_ptr<Testing::Impl::TestReportGenerator> generator;
	if (!p.generator) generator = std::make_shared<Recorder>(dir + "/generated");
	const std::string folder = dir + "/reports/of run";
	int result = 2;
	FileWriter writer;
	std::ostringstream stream;
	OStreamTestWriter streamWriter(stream);
	FileTestWriter fileWriter(Resource::File(dir + "/file"));
	if (p.form % 2 == 0) {
		std::vector<std::string> args { "program" };
		if (p.modelGiven) {
			std::string m = toString(p.model);
			if (p.concurrency % 3 == 1) for (char & c : m) c = (char) tolower(c);
			args.insert(args.end(), { "-e", m });
		} else if (p.folder) args.insert(args.end(), { "-e", "Unknown" }); // falls back to SingleThreaded
		if (p.help) args.emplace_back("--help");
		if (p.concurrency) args.insert(args.end(), { "-c", std::to_string(p.concurrency) });
		if (p.folder) args.insert(args.end(), { "-r", folder });
		if (p.namespaces) args.emplace_back("-n");
		for (auto & s : p.selection) args.push_back(s);
		std::vector<char *> argv;
		for (auto & a : args) argv.push_back(a.data());
		if (p.form == 0) result = p.moreWriters ? TestRunner::run((int) argv.size(), argv.data(), true, generator, streamWriter, writer, fileWriter)
			: TestRunner::run((int) argv.size(), argv.data(), true, generator, writer);
		else result = TestRunner::run((int) argv.size(), argv.data());
	} else {
		const Resource::File f = p.folder ? Resource::File(folder) : Resource::File();
		if (p.form == 1) result = p.moreWriters ? TestRunner::run(p.model, f, generator, fileWriter, writer, streamWriter) : TestRunner::run(p.model, f, generator, writer);
		else result = TestRunner::run(p.model, f);
	}
	fflush(stdout);
	std::cout.flush();
	if (!(p.form & 2) && p.moreWriters) {
		FILE * f = fopen((dir + "/stream").c_str(), "w");
		const std::string s = stream.str();
		if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) _exit(3);
	}
	record->result = result;
	record->returned = 1;
	exit(0);
}

struct Expected {
	std::string name, group;
	int g, t, result;
	bool covered;
};

static void runnerCase(int64_t c, vf::Rng & r, bool threadsOnly) {
	const Plan p = makePlan(r, threadsOnly);
	plan = &p;
	if (!record) {
		record = (Record *) mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (record == MAP_FAILED) { perror("mmap"); _exit(2); }
	}
	memset((void *) record, 0, sizeof(Record));
	const std::string dir = vf::st().scratch + "/r" + std::to_string(c);
	mkdir(dir.c_str(), 0700);
	outPath = dir + "/out";
	fflush(nullptr);
	const pid_t pid = fork();
	if (pid < 0) { perror("fork"); _exit(2); }
	if (pid == 0) runIt(p, dir);
	setpgid(pid, pid);
	int status = 0, idle = 0, last = -1;
	bool stuck = false;
	while (waitpid(pid, &status, WNOHANG) == 0) {
		usleep(idle < 20 ? 2000 : 50000);
		const int now = record->progress;
		if (now != last) { last = now; idle = 0; }
		else if (++idle > 700) { stuck = true; ::kill(pid, SIGKILL); waitpid(pid, &status, 0); break; }
	}
	::kill(-pid, SIGKILL);
	for (int n = 0; n < record->names && n < 600; ++n) shm_unlink(record->name[n]);
	vf::count("test runs");
	vf::count("test runs with " + toString(p.model));
	const std::string d = describe(p);
	struct Cleaner { std::string dir; ~Cleaner() { if (getenv("VF_KEEP")) return; boost::system::error_code e; boost::filesystem::remove_all(dir, e); } } cleaner { dir };

	const bool isolated = p.model == WorkerProcesses || p.model == ProcessPerTest;
	const bool standardOut = p.form & 2;
	const std::string text = readAll(standardOut ? dir + "/stdout" : outPath);
	if (stuck) { vf::violation("endless", "the test run made no progress for half a minute: " + d + "; output " + vf::show(text.substr(text.size() > 300 ? text.size() - 300 : 0), 400)); return; }
	if (!vf::check(WIFEXITED(status) && WEXITSTATUS(status) == 0 && record->returned, "ended", "the process of the test run ended with status " + std::to_string(status) + ": " + d + "; output " + vf::show(text.substr(text.size() > 300 ? text.size() - 300 : 0), 400))) return;

	if (p.help) {
		bool ran = false;
		for (auto & g : record->runs) for (auto & t : g) ran = ran || t;
		vf::check(!ran && record->result == 0 && readAll(dir + "/stdout").find("concurrency") != std::string::npos, "help", "the help text was asked for: result " + std::to_string(record->result) + (ran ? ", tests were run: " : ": ") + d);
		vf::count("help texts");
		return;
	}
	if (!standardOut && p.moreWriters) { // all writers are given the same
		for (const char * name : { "/stream", "/file" }) {
			if (isolated && name[1] == 's') continue; // the children have streams of their own
			std::string other = readAll(dir + name), mine = text;
			if (p.model != SingleThreaded) { std::sort(other.begin(), other.end()); std::sort(mine.begin(), mine.end()); } // chunks may be in another order
			vf::check(other == mine, "writers", std::string("the writers were not given the same text: ") + name + " has " + std::to_string(other.size()) + " bytes instead of " + std::to_string(mine.size()) + ": " + d);
			vf::count("further writers compared");
		}
	}

	// What must have happened.
	size_t logLines = 0, linesLogged = 0;
	std::vector<Expected> expected;
	std::map<std::string, int> resultOf;
	std::map<std::string, size_t> selectedOfGroup;
	int setups[maxGroups] {}, teardowns[maxGroups] {};
	size_t counts[4] {};
	for (size_t g = 0; g < p.groups.size(); ++g) for (size_t t = 0; t < p.groups[g].tests.size(); ++t) {
		const GroupPlan & gp = p.groups[g];
		const TestPlan & tp = gp.tests[t];
		Expected e { std::string(kinds[gp.kind].name) + "::" + tp.name, kinds[gp.kind].name, (int) g, (int) t, 0, false };
		bool selected = p.patterns.empty();
		for (auto & s : p.patterns) selected = selected || globMatches(s.c_str(), e.name.c_str());
		const int ran = record->runs[g][t];
		if (!selected) {
			vf::check(ran == 0, "not-selected", "the test " + e.name + ", which is not selected, was run " + std::to_string(ran) + " times: " + d);
			vf::count("tests not selected");
			continue;
		}
		e.covered = !gp.models || (gp.models & p.model);
		int runs = 1;
		if (!e.covered) { runs = 0; e.result = 3; vf::count("tests of other models"); }
		else {
			setups[g]++;
			int & x = e.result;
			bool down = false;
			if (gp.setup == Fail) { runs = 0; x = 1; }
			else if (gp.setup == Signal) { runs = 0; x = 2; down = true; }
			else if (gp.setup) { runs = 0; x = 2; }
			else switch (tp.outcome) {
				case Pass: x = 0; break;
				case Fail: case IgnoreThenFail: x = 1; break;
				case Ignore: x = 3; break;
				default: x = 2; down = crashes(tp.outcome);
			}
			if (!down) {
				teardowns[g]++;
				if (gp.teardown == Fail) x = x == 2 ? 2 : 1;
				else if (gp.teardown) x = 2;
			}
			vf::count(down || (gp.teardown == Signal) ? "tests that bring their process down" : x == 0 ? "tests that pass" : x == 3 ? "tests that are ignored" : "tests that fail");
			vf::distinct(toString(p.model) + std::to_string(gp.setup) + "," + std::to_string(tp.outcome) + "," + std::to_string(gp.teardown) + "," + std::to_string(tp.detail));
		}
		vf::check(ran == runs, "runs", "the test " + e.name + ", which " + outcomeNames[tp.outcome] + ", was run " + std::to_string(ran) + " times instead of " + std::to_string(runs) + ": " + d);
		if (ran == 1) {
			logLines += (size_t) (tp.logs + 3) / 4;
			const int by = record->pids[g][t];
			if (isolated) vf::check(by != pid, "isolation", "the test " + e.name + " was run in the process of the runner: " + d);
			else vf::check(by == pid, "isolation", "the test " + e.name + " was not run in the process of the runner: " + d);
		}
		counts[e.result]++;
		resultOf[e.name] = e.result;
		selectedOfGroup[e.group]++;
		expected.push_back(e);
	}
	for (size_t g = 0; g < p.groups.size(); ++g) {
		vf::check(record->setups[g] == setups[g], "setup", "the setup of group " + std::to_string(g) + " ran " + std::to_string(record->setups[g]) + " times instead of " + std::to_string(setups[g]) + ": " + d);
		vf::check(record->teardowns[g] == teardowns[g], "teardown", "the teardown of group " + std::to_string(g) + " ran " + std::to_string(record->teardowns[g]) + " times instead of " + std::to_string(teardowns[g]) + ": " + d);
	}
	if (p.model == ProcessPerTest) {
		std::set<int> pids;
		for (auto & e : expected) if (record->pids[e.g][e.t]) vf::check(pids.insert(record->pids[e.g][e.t]).second, "isolation", "two tests were run in the same process: " + d);
	}
	const unsigned cores = std::thread::hardware_concurrency();
	const unsigned level = p.model == SingleThreaded ? 1 : p.form % 2 == 0 && p.concurrency ? std::min(p.concurrency, 128u) : std::min(cores, 128u);
	vf::check(record->mostRunning <= (int) level, "concurrency", std::to_string(record->mostRunning) + " tests ran at the same time instead of " + std::to_string(level) + ": " + d);
	if (record->mostRunning > 1) vf::count("test runs with concurrent tests");
	const bool good = counts[1] + counts[2] == 0;
	vf::check(record->result == (good ? 0 : 1), "exit-code", "the runner returned " + std::to_string(record->result) + ": " + d);

	// What the output says.
	std::map<std::string, std::vector<std::string>> lines;
	std::vector<std::string> order, failedList;
	std::map<std::string, size_t> totals;
	std::map<std::string, std::pair<int, int>> groupMarks;
	{
		// Children that begin or end may write this into lines that the runner writes in parts.
		static const std::regex ending("\\nTest application child process with pid [0-9]+ finished execution\\.\\n|Child pid  = [0-9]+\\n|Replacement child process created, pid  = [0-9]+\\n");
		std::string parsed;
		std::regex_replace(std::back_inserter(parsed), text.begin(), text.end(), ending, "");
		for (size_t at = 0; (at = parsed.find("a line of a test", at)) != std::string::npos; ++at) ++linesLogged;
		std::istringstream in(parsed);
		std::string line;
		bool listing = false;
		while (std::getline(in, line)) {
			size_t at;
			if (listing) {
				if (line.compare(0, 6, "      ") == 0) failedList.push_back(line.substr(6));
				else listing = false;
			}
			if (line == "Failed/errored tests:") listing = true;
			for (const char * k : { "tests passed:", "tests ignored:", "tests failed:", "tests errored:", "Total tests run:" }) {
				if ((at = line.find(k)) != std::string::npos) {
					if (totals.count(k)) vf::violation("totals", "the totals are written twice: " + d);
					totals[k] = strtoul(line.c_str() + at + strlen(k), nullptr, 10);
				}
			}
			if (line.compare(0, 22, "++ Running test group ") == 0) { groupMarks[line.substr(22)].first++; order.push_back("+" + line.substr(22)); }
			if (line.compare(0, 3, "== ") == 0 && line.find(" group completed.") != std::string::npos) { const auto n = line.substr(3, line.find(" group completed.") - 3); groupMarks[n].second++; order.push_back("-" + n); }
			for (const char * k : { " - Test ", " - Found test:  " }) if ((at = line.find(k)) != std::string::npos) {
				std::string rest = line.substr(at + strlen(k));
				// the longest known name that begins it
				std::string name;
				for (auto & e : expected) if (rest.compare(0, e.name.size(), e.name) == 0 && rest.size() > e.name.size() && rest[e.name.size()] == ' ' && e.name.size() > name.size()) name = e.name;
				if (name.empty()) { vf::violation("report-line", "the output reports an unknown test " + vf::show(line) + ": " + d); continue; }
				lines[name].push_back(line);
				order.push_back(name);
			}
		}
	}
	const auto quote = [&] (const std::string & s) { return vf::show(s, 200) + ": " + d; };
	for (auto & e : expected) {
		auto & l = lines[e.name];
		if (!e.covered) { vf::check(l.empty(), "report-line", "a test of another model has the line " + quote(l.empty() ? "" : l[0])); continue; }
		if (!vf::check(l.size() == 1, "report-line", "the test " + e.name + " has " + std::to_string(l.size()) + " lines in the output: " + d)) continue;
		const bool passed = l[0].find(" - passed.") != std::string::npos, ignored = l[0].find(" - ignored.") != std::string::npos;
		const bool failed = l[0].find("FAILED!") != std::string::npos || l[0].find("SEGMENTATION FAULT!") != std::string::npos;
		vf::check(passed == (e.result == 0) && ignored == (e.result == 3) && failed == (e.result == 1 || e.result == 2), "report-line"
			, "the test " + e.name + ", which " + outcomeNames[p.groups[(size_t) e.g].tests[(size_t) e.t].outcome] + ", is reported as " + quote(l[0]));
		const TestPlan & tp = p.groups[(size_t) e.g].tests[(size_t) e.t];
		if (!p.groups[(size_t) e.g].setup && p.groups[(size_t) e.g].teardown != Signal && (tp.outcome == Fail || tp.outcome == Throw || tp.outcome == IgnoreThenFail)) {
			vf::check(text.find(messageOf(e.g, e.t, tp.text)) != std::string::npos, "message", "the message of length " + std::to_string(tp.text) + " of " + e.name + " is not in the output: " + d);
			vf::count("messages of failures");
			if (tp.text > 2000) vf::count("long messages of failures");
		}
	}
	vf::check(linesLogged == logLines, "logging", std::to_string(linesLogged) + " lines that tests logged are in the output instead of " + std::to_string(logLines) + ": " + d);
	vf::count("lines logged by tests", logLines);
	if (expected.empty()) vf::check(text.find("No tests to run.") != std::string::npos, "no-tests", "a run of no tests wrote " + quote(text));
	// Groups are reported one after the other.
	std::string current;
	for (auto & o : order) {
		if (o[0] == '+') { vf::check(current.empty(), "order", "group " + o + " begins within group " + current + ": " + d); current = o.substr(1); }
		else if (o[0] == '-') { vf::check(current == o.substr(1), "order", "group " + o + " ends within group " + current + ": " + d); current.clear(); }
		else vf::check(o.compare(0, current.size() + 2, current + "::") == 0, "order", "the test " + o + " is reported within group " + current + ": " + d);
	}
	for (auto & g : selectedOfGroup) {
		const auto m = groupMarks[g.first];
		vf::check(m.first == 1 && m.second == 1, "group-marks", "group " + g.first + " is begun " + std::to_string(m.first) + " times and completed " + std::to_string(m.second) + " times: " + d);
	}
	// The totals.
	const std::string totalsText = "passed " + std::to_string(totals["tests passed:"]) + ", ignored " + std::to_string(totals["tests ignored:"]) + ", failed " + std::to_string(totals["tests failed:"]) + ", errored " + std::to_string(totals["tests errored:"]);
	vf::check(totals["tests passed:"] == counts[0] && totals["tests ignored:"] == counts[3] && totals["tests failed:"] == counts[1] && totals["tests errored:"] == counts[2] && (good || totals["Total tests run:"] == expected.size()), "totals"
		, "the totals are " + totalsText + " instead of passed " + std::to_string(counts[0]) + ", ignored " + std::to_string(counts[3]) + ", failed " + std::to_string(counts[1]) + ", errored " + std::to_string(counts[2]) + ": " + d);
	vf::check((text.find("ALL TESTS PASSED") != std::string::npos) == good, "totals", "the verdict is wrong: " + d);
	std::multiset<std::string> failed(failedList.begin(), failedList.end()), shouldFail;
	for (auto & e : expected) if (e.result == 1 || e.result == 2) shouldFail.insert(e.name);
	vf::check(failed == shouldFail, "failed-list", "the list of failed tests has " + std::to_string(failed.size()) + " entries instead of " + std::to_string(shouldFail.size()) + ": " + d);

	// What the report generator was given.
	const bool given = !standardOut && p.generator == 0 && (p.form % 2 == 0 || p.folder);
	if (given) {
		std::istringstream in(readAll(dir + "/generated"));
		std::string line;
		std::map<std::string, int> seenGroups, seenTests;
		std::string group;
		while (std::getline(in, line)) {
			std::istringstream l(line);
			std::string k, name;
			l >> k;
			if (k == "group") { size_t n; l >> n; std::getline(l, name); group = name.substr(1); seenGroups[group]++; vf::check(n == selectedOfGroup[group], "generator", "the report of group " + group + " has " + std::to_string(n) + " tests instead of " + std::to_string(selectedOfGroup[group]) + ": " + d); }
			else if (k == "result") {
				int result; size_t size;
				l >> result >> size;
				std::getline(l, name);
				name = name.substr(1);
				seenTests[name]++;
				vf::check(resultOf.count(name) && resultOf[name] == result && name.compare(0, group.size() + 2, group + "::") == 0, "generator", "the report of group " + group + " has result " + std::to_string(result) + " of test " + name + ": " + d);
			} else vf::violation("generator", "the durations of the tests do not add up: " + line + ": " + d);
		}
		for (auto & g : selectedOfGroup) vf::check(seenGroups[g.first] == 1, "generator", "there are " + std::to_string(seenGroups[g.first]) + " reports of group " + g.first + ": " + d);
		for (auto & e : expected) vf::check(seenTests[e.name] == 1, "generator", "there are " + std::to_string(seenTests[e.name]) + " reports of test " + e.name + ": " + d);
		vf::count("groups given to generators", seenGroups.size());
	}
	// The report files.
	const bool files = p.folder && (standardOut || given);
	for (auto & g : selectedOfGroup) {
		const std::string path = dir + "/reports/of run/TEST-" + g.first + ".xml";
		struct stat st {};
		const bool there = stat(path.c_str(), &st) == 0;
		if (!vf::check(there == files, "report-file", "the report file of " + g.first + (there ? " exists: " : " does not exist: ") + d) || !there) continue;
		try {
			boost::property_tree::ptree tree;
			boost::property_tree::read_xml(path, tree);
			const auto & suite = tree.get_child("testsuite");
			size_t n[4] {};
			size_t cases = 0;
			for (auto & child : suite) if (child.first == "testcase") {
				++cases;
				const std::string name = child.second.get<std::string>("<xmlattr>.name");
				const int result = child.second.count("failure") ? 1 : child.second.count("error") ? 2 : child.second.count("skipped") ? 3 : 0;
				n[result]++;
				vf::check(resultOf.count(name) && resultOf[name] == result, "report-file", "the report file of " + g.first + " has result " + std::to_string(result) + " of test " + name + ": " + d);
				for (auto & e : expected) if (e.name == name && result == 1) {
					const TestPlan & tp = p.groups[(size_t) e.g].tests[(size_t) e.t];
					if (!p.groups[(size_t) e.g].setup && (tp.outcome == Fail || tp.outcome == IgnoreThenFail))
						vf::check(child.second.get<std::string>("failure.<xmlattr>.message").find(messageOf(e.g, e.t, tp.text)) != std::string::npos, "report-file", "the report file of " + g.first + " lacks the message of " + name + ": " + d);
				}
			}
			vf::check(cases == g.second && suite.get<size_t>("<xmlattr>.tests") == cases && suite.get<size_t>("<xmlattr>.failures") == n[1] && suite.get<size_t>("<xmlattr>.errors") == n[2] && suite.get<size_t>("<xmlattr>.skipped") == n[3]
				&& suite.get<std::string>("<xmlattr>.name") == g.first, "report-file", "the numbers in the report file of " + g.first + " with " + std::to_string(cases) + " tests are wrong: " + d);
			vf::count("report files");
		} catch (const std::exception & e) {
			vf::violation("report-file", "the report file of " + g.first + " is not readable: " + e.what() + ": " + d);
		}
	}
	vf::sample(d);
}

static vf::Mode mRunner("runner", [] (int64_t c, vf::Rng & r) { runnerCase(c, r, false); });
static vf::Mode mThreads("threads", [] (int64_t c, vf::Rng & r) { runnerCase(c, r, true); });
