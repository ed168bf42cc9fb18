// process.cpp : monitors of forked children (P27) and scope guards (P28).
#include <vf.hpp>
#include <Balau/Concurrent/Fork.hpp>
#include <Balau/Type/OnScopeExit.hpp>
#include <Balau/Type/MovableOnScopeExit.hpp>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <optional>

using namespace Balau;
using Balau::Concurrent::Fork;

// ------------------------------------------------ children with known fates

// No signal leaves this process other than to children which are not reaped yet.
static std::mutex childrenMutex;
static std::set<int> & liveChildren() { static auto * s = new std::set<int>; return *s; }
extern "C" int __real_kill(pid_t, int);
extern "C" int __wrap_kill(pid_t pid, int sig) {
	{
		std::lock_guard<std::mutex> l(childrenMutex);
		if (liveChildren().count(pid)) return __real_kill(pid, sig);
	}
	vf::violation("kill-other", "signal " + std::to_string(sig) + " was sent to " + std::to_string(pid) + ", which is no child that is waited for");
	errno = ESRCH;
	return -1;
}

struct Slot {
	std::atomic<int> runs, pid, returned, returnedValue, ended;
};
struct Page {
	Slot * slots;
	size_t n;
	explicit Page(size_t n_) : n(n_) {
		slots = (Slot *) mmap(nullptr, n * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (slots == MAP_FAILED) { perror("mmap"); _exit(2); }
		memset((void *) slots, 0, n * sizeof(Slot));
	}
	~Page() { munmap((void *) slots, n * sizeof(Slot)); }
};

struct Child {
	int pid = 0;
	int gate = -1;          // writing a byte lets it go
	int how = 0;            // 0 exit with its function, 1 returning int variant, 2 returning zero variant
	int status = 0;         // returned by its function
	int sig = 0;            // signal that it raises instead
	bool stopped = false, terminated = false, released = false, reaped = false;
	bool ended = false;
	siginfo_t truth {};
	std::string text() const {
		return "child which " + (terminated ? std::string("was terminated")
			: sig ? "raises signal " + std::to_string(sig) : "ends with status " + std::to_string(status)) + (how ? " (returning variant " + std::to_string(how) + ")" : "");
	}
};

static std::string show(const Fork::TerminationReport & t) {
	return "{pid " + std::to_string(t.pid) + ", code " + std::to_string(t.code) + ", status " + std::to_string(t.exitStatus) + "}";
}
static bool isEmpty(const Fork::TerminationReport & t) { return t.pid == 0 && t.code == 0 && t.exitStatus == 0; }

static Child start(Page & page, size_t index, vf::Rng & r) {
	Child c;
	Slot & slot = page.slots[index];
	int p[2];
	if (pipe2(p, O_CLOEXEC)) { perror("pipe"); _exit(2); }
	c.gate = p[1];
	c.how = (int) r.below(3);
	if (r.chance(3, 5)) c.status = r.chance(1, 3) ? (int) r.below(3) : (int) r.below(256);
	else c.sig = r.of({ SIGKILL, SIGTERM, SIGUSR1, SIGABRT, SIGSEGV, SIGALRM, SIGPIPE, SIGFPE, SIGHUP, SIGINT });
	const int parent = getpid();
	// Made before the fork and never destroyed in the child: in a fork of one of several threads, another may hold the locks of the sanitizer's allocator.
	const std::function<int ()> function = [&slot, p, c, parent] () -> int {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		slot.pid = getpid();
		slot.runs++;
		if (getpid() == parent) return 99;
		char b;
		while (read(p[0], &b, 1) < 0 && errno == EINTR) {}
		if (c.sig) {
			signal(c.sig, SIG_DFL);
			sigset_t s;
			sigemptyset(&s);
			sigaddset(&s, c.sig);
			sigprocmask(SIG_UNBLOCK, &s, nullptr);
			::syscall(SYS_kill, getpid(), c.sig);
			usleep(20000000);
		}
		return c.status;
	};
	const int result = c.how == 0 ? Fork::performFork(function, true) : c.how == 1 ? Fork::performFork(function, false) : Fork::performFork(function);
	if (getpid() != parent) { // The child: only the returning variants may come here.
		slot.returned++;
		slot.returnedValue = result;
		_Exit(c.how == 0 ? 98 : c.status);
	}
	c.pid = result;
	close(p[0]);
	std::lock_guard<std::mutex> l(childrenMutex);
	liveChildren().insert(c.pid);
	return c;
}

// The truth about a child, asked of the system without reaping it.
static void awaitEnd(Child & c) {
	for (int n = 0; n < 4000; ++n) {
		c.truth = {};
		if (waitid(P_PID, (id_t) c.pid, &c.truth, WEXITED | WNOWAIT | WNOHANG) == 0 && c.truth.si_pid == c.pid) { c.ended = true; return; }
		usleep(n < 200 ? 100 : 5000);
	}
}
static void letGo(Child & c) {
	c.released = true;
	if (write(c.gate, "x", 1) != 1) perror("gate");
	if (c.stopped) { c.stopped = false; ::syscall(SYS_kill, c.pid, SIGCONT); }
}
static void reaped(Child & c) {
	c.reaped = true;
	std::lock_guard<std::mutex> l(childrenMutex);
	liveChildren().erase(c.pid);
}
static void checkReport(const Fork::TerminationReport & t, Child & c, const char * by) {
	vf::count("reports checked");
	if (!c.ended) { // reaped by the call itself: the fate is known
		const bool ok = c.sig ? t.code != CLD_EXITED && t.exitStatus == c.sig : t.code == CLD_EXITED && t.exitStatus == c.status;
		vf::check(ok && t.pid == c.pid, "report", std::string(by) + " reported " + show(t) + " of pid " + std::to_string(c.pid) + ", a " + c.text());
	} else {
		vf::check(t.pid == c.pid && t.code == c.truth.si_code && t.exitStatus == c.truth.si_status, "report"
			, std::string(by) + " reported " + show(t) + " of pid " + std::to_string(c.pid) + ", a " + c.text() + ", whose end is {code "
			+ std::to_string(c.truth.si_code) + ", status " + std::to_string(c.truth.si_status) + "}");
		if (c.terminated) vf::check(t.code == CLD_KILLED && t.exitStatus == SIGKILL, "fate", "a terminated child ended as " + show(t));
		else if (c.sig) vf::check((t.code == CLD_KILLED || t.code == CLD_DUMPED) && t.exitStatus == c.sig, "fate", "a " + c.text() + " ended as " + show(t));
		else vf::check(t.code == CLD_EXITED && t.exitStatus == c.status, "fate", "a " + c.text() + " ended as " + show(t));
	}
	reaped(c);
}
template <typename F> static void refuses(F f, const std::string & what) {
	try { f(); }
	catch (const Exception::WaitException &) { vf::count("waits refused"); return; }
	vf::violation("not-refused", what + " did not throw a WaitException");
}

// One population of children owned by one thread.
static uint64_t population(Page & page, size_t base, size_t count, vf::Rng & r, bool alone) {
	std::vector<Child> c;
	uint64_t shape = 0;
	for (size_t n = 0; n < count; ++n) {
		c.push_back(start(page, base + n, r));
		shape = vf::mix(shape, (uint64_t) c.back().how * 1000000 + (uint64_t) c.back().status * 1000 + (uint64_t) c.back().sig);
		vf::count("children");
	}
	size_t left = count;
	for (int step = 0; left; ++step) {
		Child & x = c[r.below(count)];
		const uint64_t op = r.below(10);
		shape = vf::mix(shape, op * 100 + (uint64_t) (&x - c.data()));
		if (x.reaped) {
			if (r.chance(1, 3)) {
				switch (r.below(3)) {
					case 0: refuses([&] { Fork::waitOnProcess(x.pid); }, "waiting for a child again"); break;
					case 1: refuses([&] { Fork::checkForTermination(x.pid); }, "checking a child again"); break;
					default: refuses([&] { Fork::terminateProcess(x.pid); }, "terminating a child again"); break;
				}
			}
			continue;
		}
		if (x.released && !x.ended) { vf::violation("not-ended", "a " + x.text() + " did not end within 20 s"); return shape; }
		switch (op) {
			case 0: case 1: { // a look at one
				const auto t = Fork::checkForTermination(x.pid);
				if (x.ended) { checkReport(t, x, "checkForTermination"); --left; }
				else { vf::check(isEmpty(t), "running", "checkForTermination reported " + show(t) + " of a running child"); vf::count("running children looked at"); }
				break;
			}
			case 2: case 3: { // a look at several
				std::vector<int> pids;
				std::vector<Child *> asked;
				for (auto & y : c) if (!y.reaped && r.chance(2, 3)) { pids.push_back(y.pid); asked.push_back(&y); }
				for (uint64_t n = r.below(3); n; --n) pids.insert(pids.begin() + (long) r.below(pids.size() + 1), r.of({ 0, -1, -7 }));
				const auto reports = Fork::checkForTermination(pids);
				size_t endedAsked = 0;
				for (auto * y : asked) {
					const Fork::TerminationReport * found = nullptr;
					size_t times = 0;
					for (auto & t : reports) if (t.pid == y->pid) { found = &t; ++times; }
					if (y->ended) {
						++endedAsked;
						if (vf::check(times == 1, "reports", "a child that ended was reported " + std::to_string(times) + " times by checkForTermination of several")) {
							checkReport(*found, *y, "checkForTermination of several");
							--left;
						} else if (times == 0) return shape;
					} else {
						vf::check(times == 0, "running", "checkForTermination of several reported a running child");
						vf::count("running children looked at");
					}
				}
				vf::check(reports.size() == endedAsked, "reports", std::to_string(reports.size()) + " reports for " + std::to_string(endedAsked) + " children that ended");
				break;
			}
			case 4: case 5: { // let go and end
				if (!x.ended) { letGo(x); awaitEnd(x); vf::count("children let go"); }
				break;
			}
			case 6: { // wait
				if (!x.ended && r.chance(1, 2) && alone) {
					vf::Rng r2(r.next());
					std::atomic<bool> go { false };
					Slot & s = page.slots[base + (size_t) (&x - c.data())];
					std::thread t([&] { vf::pause(r2); if (r2.chance(1, 3)) usleep(2000); go = true; letGo(x); });
					const auto report = Fork::waitOnProcess(x.pid);
					vf::check(go, "early", "waitOnProcess returned " + show(report) + " before the child could end");
					vf::count("waits for a running child");
					t.join();
					(void) s;
					checkReport(report, x, "waitOnProcess");
					--left;
				} else {
					if (!x.ended) { letGo(x); awaitEnd(x); if (!x.ended) break; }
					checkReport(Fork::waitOnProcess(x.pid), x, "waitOnProcess");
					--left;
				}
				break;
			}
			case 7: { // terminate
				const auto t = Fork::terminateProcess(x.pid);
				if (x.ended) { checkReport(t, x, "terminateProcess"); --left; }
				else {
					vf::check(isEmpty(t), "running", "terminateProcess reported " + show(t) + " of a running child");
					awaitEnd(x);
					if (!vf::check(x.ended, "survived", "a child was still running 20 s after terminateProcess")) {
						::syscall(SYS_kill, x.pid, SIGKILL);
						waitpid(x.pid, nullptr, 0);
						reaped(x);
						--left;
						break;
					}
					x.terminated = x.released = true;
					vf::count("running children terminated");
				}
				break;
			}
			case 8: { // invalid
				const int bad = r.of({ 0, -1, -2, -1000 });
				vf::check(isEmpty(Fork::waitOnProcess(bad)) && isEmpty(Fork::checkForTermination(bad)) && isEmpty(Fork::terminateProcess(bad)), "invalid", "a report was made of an invalid pid");
				if (r.chance(1, 4)) {
					refuses([&] { Fork::waitOnProcess(getpid()); }, "waiting for oneself");
					refuses([&] { Fork::terminateProcess(getppid()); }, "terminating the parent");
				}
				break;
			}
			default: { // a stopped child is still running
				if (!x.ended && !x.stopped && r.chance(1, 2)) {
					while (page.slots[base + (size_t) (&x - c.data())].runs == 0) usleep(100);
					::syscall(SYS_kill, x.pid, SIGSTOP);
					siginfo_t i {};
					if (waitid(P_PID, (id_t) x.pid, &i, WSTOPPED | WNOWAIT) == 0) x.stopped = true;
					vf::count("children stopped");
				}
				break;
			}
		}
	}
	for (size_t n = 0; n < count; ++n) {
		Slot & s = page.slots[base + n];
		if (c[n].terminated) {
			vf::check(s.runs <= 1, "runs", "the function of a child ran " + std::to_string(s.runs) + " times");
		} else {
			vf::check(s.runs == 1, "runs", "the function of a child ran " + std::to_string(s.runs) + " times");
			vf::check(s.pid == c[n].pid, "pid", "the function ran in process " + std::to_string(s.pid) + " and not in " + std::to_string(c[n].pid));
			const int back = c[n].how == 0 || c[n].sig ? 0 : 1;
			vf::check(s.returned == back, "returned", "performFork returned " + std::to_string(s.returned) + " times in a " + c[n].text());
			if (back) vf::check(s.returnedValue == (c[n].how == 1 ? c[n].status : 0), "returned-value", "performFork returned " + std::to_string(s.returnedValue) + " in a " + c[n].text());
		}
		close(c[n].gate);
	}
	return shape;
}

static vf::Mode forks("fork", [](int64_t, vf::Rng & r) {
	rlimit none { 0, 0 };
	setrlimit(RLIMIT_CORE, &none);
	const size_t threads = r.chance(1, 4) ? 2 + r.below(3) : 1;
	const size_t each = 1 + r.below(threads > 1 ? 4 : 7);
	Page page(threads * each);
	if (threads == 1) {
		vf::distinct(population(page, 0, each, r, true));
	} else {
		std::vector<std::thread> ts;
		for (size_t n = 0; n < threads; ++n) ts.emplace_back([&, n, seed = r.next()] { vf::Rng r2(seed); vf::distinct(population(page, n * each, each, r2, false)); });
		for (auto & t : ts) t.join();
		vf::count("threads forking", threads);
	}
	vf::check(waitpid(-1, nullptr, WNOHANG) == -1 && errno == ECHILD, "stray", "there are children left that no call of performFork returned, or that were reported but not reaped");
});

// ------------------------------------------------ scope guards

struct Unwind {};
struct FunctionFails {};

struct Calls {
	std::vector<int> seen, expected;
	std::vector<std::string> script;
	bool armed = false;
	int next = 0;
	void note(const std::string & s) { script.push_back(s); }
	std::string text() const {
		std::string t;
		for (auto & s : script) t += s + " ";
		t += "| called:";
		for (int s : seen) t += " " + std::to_string(s);
		t += " | due:";
		for (int s : expected) t += " " + std::to_string(s);
		return t;
	}
	void compare() { vf::check(seen == expected, "calls", text()); }
};

// The duty model of a guard: what is due when its scope ends.
struct Duty {
	Calls & calls;
	std::optional<int> due;
	~Duty() { if (due) calls.expected.push_back(*due); }
};

static Calls * current = nullptr;
static void plainFunction() { current->seen.push_back(-1); }
struct Functor {
	Calls * c;
	int id;
	std::vector<int> load; // owned memory, seen by ASan when used after destruction
	void operator()() const { c->seen.push_back(load[0]); (void) id; }
};

template <typename G> static void operate(G & g, Duty & d, vf::Rng & r) {
	Calls & c = d.calls;
	if (r.chance(1, 2)) {
		c.note("clear");
		g.clear();
		d.due.reset();
	} else {
		const bool fails = r.chance(1, 3);
		c.note(fails ? "execute-throwing" : "execute");
		const auto due = d.due;
		if (due) c.expected.push_back(*due);
		d.due.reset();
		c.armed = fails;
		bool threw = false;
		try { g.executeNow(); } catch (const FunctionFails &) { threw = true; }
		c.armed = false;
		vf::check(threw == (fails && due && *due >= 0 && *due % 2 == 0), "exception", "executeNow " + std::string(threw ? "threw: " : "did not throw: ") + c.text());
		vf::count(threw ? "early executions that threw" : "early executions");
	}
}
static std::function<void ()> functionOf(Calls & c, int id) {
	return [&c, id, load = std::vector<int> { id }] {
		c.seen.push_back(load[0]);
		if (c.armed && id % 2 == 0) throw FunctionFails();
	};
}

static MovableOnScopeExit makeMovable(Calls & c, int id, vf::Rng & r, Duty & d) {
	switch (r.below(4)) {
		case 0: d.due = -1; return MovableOnScopeExit(&plainFunction);
		case 1: d.due = id | 1; return MovableOnScopeExit(Functor { &c, id, { id | 1 } });
		case 2: { d.due = id; MovableOnScopeExit g(functionOf(c, id)); return g; }
		default: { // made in an inner scope and moved out
			d.due = id;
			MovableOnScopeExit g([&c, id, load = std::vector<int> { id }] { c.seen.push_back(load[0]); if (c.armed && id % 2 == 0) throw FunctionFails(); });
			if (r.chance(1, 4)) operate(g, d, r);
			MovableOnScopeExit h(std::move(g));
			return std::move(h);
		}
	}
}

static void level(Calls & c, vf::Rng & r, int depth);

template <typename G> static void body(G & g, Duty & d, vf::Rng & r, int depth) {
	Calls & c = d.calls;
	for (uint64_t n = depth ? r.below(4) : 2 + r.below(5); n; --n) {
		switch (r.below(7)) {
			case 0: case 1: if (depth < 6) { c.note("{"); level(c, r, depth + 1); c.note("}"); } break;
			case 2: case 3: operate(g, d, r); break;
			case 4: if constexpr (std::is_same<G, OnScopeExit>::value) { const int id = c.next++; c.note("set" + std::to_string(id)); g.rest(functionOf(c, id)); d.due = id; } break;
			case 5: if (depth && r.chance(1, 2)) { c.note("throw"); vf::count("scopes left by an exception"); throw Unwind(); } break;
			default: if (r.chance(1, 2)) { c.note("return"); return; } break;
		}
	}
}

static void level(Calls & c, vf::Rng & r, int depth) {
	vf::count("scopes");
	const int id = c.next++;
	const bool catches = r.chance(1, 3) || depth == 0;
	try {
		Duty d { c, id };
		c.note("guard" + std::to_string(id));
		if (r.chance(1, 2)) {
			OnScopeExit g(functionOf(c, id));
			body(g, d, r, depth);
		} else {
			Duty & dd = d;
			MovableOnScopeExit g = makeMovable(c, id, r, dd);
			if (r.chance(1, 3)) { // handed on to an inner scope, which ends first
				c.note("moved-in");
				Duty inner { c, d.due };
				d.due.reset();
				{
					MovableOnScopeExit h(std::move(g));
					body(h, inner, r, depth);
				}
				if (inner.due) { c.expected.push_back(*inner.due); inner.due.reset(); }
				if (r.chance(1, 2)) operate(g, d, r);
			} else body(g, d, r, depth);
		}
	} catch (const Unwind &) {
		if (!catches) { throw; }
		c.note("caught");
	}
}

static vf::Mode guards("guards", [](int64_t, vf::Rng & r) {
	Calls c;
	current = &c;
	level(c, r, 0);
	c.compare();
	vf::distinct(c.text());
	if (vf::st().samples.size() < 3 && c.script.size() > 6) vf::sample(c.text());
});

static vf::Mode moved("guards-moved", [](int64_t, vf::Rng & r) {
	Calls c;
	current = &c;
	std::vector<std::unique_ptr<MovableOnScopeExit>> g;
	std::vector<MovableOnScopeExit> row;
	std::vector<std::optional<int>> due, rowDue;
	{
		for (int n = 0; n < 40; ++n) {
			const uint64_t op = r.below(8);
			const size_t m = r.below(g.size() + 1) % std::max<size_t>(g.size(), 1);
			c.note(std::to_string(op) + "@" + std::to_string(m));
			if (op < 2 || g.empty()) {
				const int id = c.next++;
				Duty d { c, {} };
				g.push_back(std::make_unique<MovableOnScopeExit>(makeMovable(c, id, r, d)));
				due.push_back(d.due);
				d.due.reset();
			} else if (op == 2) {
				g.push_back(std::make_unique<MovableOnScopeExit>(std::move(*g[m])));
				due.push_back(due[m]);
				due[m].reset();
				vf::count("guards moved");
			} else if (op == 3) {
				if (due[m]) c.expected.push_back(*due[m]);
				g.erase(g.begin() + (long) m);
				due.erase(due.begin() + (long) m);
			} else if (op == 4) {
				row.push_back(std::move(*g[m]));
				rowDue.push_back(due[m]);
				due[m].reset();
				vf::count("guards moved");
			} else if (op == 5 && !row.empty()) {
				row.pop_back();
				if (rowDue.back()) c.expected.push_back(*rowDue.back());
				rowDue.pop_back();
			} else {
				Duty d { c, due[m] };
				operate(*g[m], d, r);
				due[m] = d.due;
				d.due.reset();
			}
			c.compare();
		}
		std::multiset<int> rest;
		for (auto & d : due) if (d) rest.insert(*d);
		for (auto & d : rowDue) if (d) rest.insert(*d);
		const size_t before = c.seen.size();
		g.clear();
		row.clear();
		vf::check(std::multiset<int>(c.seen.begin() + (long) before, c.seen.end()) == rest, "calls", "at the end: " + c.text());
		vf::count("guards left to the end", rest.size());
	}
	vf::distinct(c.text());
});
