// P03 (semaphore, cyclic barrier) and P04 (once-only execution, lazy values, per-thread
// instances): counting monitors and quiescence detection under schedule perturbation.
#include "inject.hpp"
#include <functional>
#include <mutex>
#include <new>
#include <Balau/Concurrent/CyclicBarrier.hpp>
#include <Balau/Concurrent/Semaphore.hpp>
#include <Balau/Concurrent/LazyValue.hpp>
#include <Balau/Concurrent/SingleTimeExecutor.hpp>
#include <Balau/Concurrent/ThreadLocalInstance.hpp>

using namespace Balau::Concurrent;
using std::to_string;

static void setInject(vf::Rng & r) {
	inject::seed(r.next());
	inject::intensity = r.of({ 1u, 2u, 4u, 16u, 1000u });
	inject::spuriousRate = r.of({ 2u, 4u, 16u, 100000u });
	inject::enabled = true;
}
static void startTogether(std::atomic<int> & gate, int n) {
	gate.fetch_add(1);
	while (gate.load() < n) std::this_thread::yield();
}
struct Order { // order in which threads passed observable points, for counting distinct schedules
	std::mutex m;
	uint64_t h = 11;
	void mark(uint64_t x) { std::lock_guard<std::mutex> l(m); h = vf::mix(h, x); }
};
static void finish(std::vector<std::thread> & ts, std::atomic<int> & finished, int n, const char * key, const std::string & detail) {
	if (!vf::awaitOrStuck([&] { return finished.load() == n; }))
		vf::fatalViolation(key, detail + ": " + to_string(finished.load()) + " of " + to_string(n) + " threads finished, the others sleep for ever");
	for (auto & t : ts) t.join();
}

// ---------------------------------------------------------------- semaphore

static void semaphore(int64_t, vf::Rng & r) {
	const unsigned init = (unsigned) r.of({ 0, 0, 1, 1, 2, 5 });
	const int I = (int) r.range(1, 4), D = (int) r.range(1, 4);
	const int perI = (int) r.range(1, 12);
	const int total = I * perI;
	int left = total + (int) init - (int) r.below(3);
	if (left < 0) left = 0;
	const int decs = left;
	std::vector<int> quota(D, 0);
	for (int m = 0; m < decs; ++m) ++quota[r.below(D)];
	setInject(r);
	Semaphore s(init);
	Order order;
	std::atomic<long> begun { 0 }, done { 0 };
	std::atomic<int> gate { 0 }, finished { 0 };
	std::vector<std::thread> ts;
	const int N = I + D;
	for (int t = 0; t < I; ++t) {
		uint64_t sd = r.next();
		ts.emplace_back([&, t, sd] {
			vf::Watch w;
			vf::Rng g(sd);
			startTogether(gate, N);
			for (int m = 0; m < perI; ++m) {
				vf::pause(g);
				++begun;
				s.increment();
				order.mark((uint64_t) t);
			}
			++finished;
		});
	}
	for (int t = 0; t < D; ++t) {
		uint64_t sd = r.next();
		ts.emplace_back([&, t, sd] {
			vf::Watch w;
			vf::Rng g(sd);
			startTogether(gate, N);
			for (int m = 0; m < quota[t]; ++m) {
				vf::pause(g);
				s.decrement();
				const long d = ++done;
				const long b = begun.load();
				if (d > (long) init + b) vf::violation("semaphore-overdrawn", "initial " + to_string(init) + ", increments begun " + to_string(b) + ", decrements completed " + to_string(d));
				order.mark(64 + (uint64_t) t);
			}
			++finished;
		});
	}
	finish(ts, finished, N, "semaphore-lost-wakeup", "semaphore initial " + to_string(init) + " increments " + to_string(total) + " decrements " + to_string(decs));
	// What is left can be taken without waiting, and nothing more.
	const int rest = total + (int) init - decs;
	std::atomic<int> taken { 0 };
	std::atomic<bool> over { false };
	std::thread probe([&] {
		vf::Watch w;
		for (int m = 0; m < rest; ++m) { s.decrement(); ++taken; }
		s.decrement();
		++taken;
		over = true;
	});
	if (!vf::awaitOrStuck([&] { return taken.load() >= rest; })) vf::fatalViolation("semaphore-count-lost", "only " + to_string(taken.load()) + " of the remaining " + to_string(rest) + " could be taken");
	usleep((useconds_t) r.below(2000));
	if (taken.load() > rest) vf::violation("semaphore-overdrawn", "a decrement of an exhausted semaphore returned");
	s.increment();
	if (!vf::awaitOrStuck([&] { return over.load(); })) vf::fatalViolation("semaphore-lost-wakeup", "one waiter, one increment: the waiter sleeps for ever");
	probe.join();
	vf::count("semaphore operations", (uint64_t) (total + decs));
	vf::distinct(order.h);
	vf::sample("semaphore init=" + to_string(init) + " increments=" + to_string(I) + "x" + to_string(perI) + " decrements=" + to_string(decs) + " over " + to_string(D) + " threads");
}

// A binary semaphore used as a lock, guarding plain data: mutual exclusion and visibility.
static void semaphoreLock(int64_t, vf::Rng & r) {
	const int N = (int) r.range(2, 5), rounds = (int) r.range(5, 40);
	setInject(r);
	Semaphore s(1);
	long plain = 0;
	std::vector<int> data(64, 0);
	std::atomic<int> inside { 0 }, gate { 0 }, finished { 0 };
	Order order;
	std::vector<std::thread> ts;
	for (int t = 0; t < N; ++t) {
		uint64_t sd = r.next();
		ts.emplace_back([&, t, sd] {
			vf::Watch w;
			vf::Rng g(sd);
			startTogether(gate, N);
			for (int m = 0; m < rounds; ++m) {
				s.decrement();
				if (++inside != 1) vf::violation("semaphore-two-holders", "two threads inside a section guarded by a semaphore of one");
				plain = plain + 1;
				data[plain % 64] += 1;
				order.mark((uint64_t) t);
				vf::pause(g);
				--inside;
				s.increment();
			}
			++finished;
		});
	}
	finish(ts, finished, N, "semaphore-lost-wakeup", "semaphore as a lock");
	if (plain != (long) N * rounds) vf::violation("semaphore-lost-update", to_string(plain) + " of " + to_string(N * rounds));
	vf::count("guarded sections entered", (uint64_t) (N * rounds));
	vf::distinct(order.h);
}

// ---------------------------------------------------------------- cyclic barrier

static void barrier(int64_t, vf::Rng & r) {
	setInject(r);
	int n = (int) r.range(1, 6);
	CyclicBarrier b((unsigned) n);
	const int phases = (int) r.range(1, 3);
	Order order;
	for (int phase = 0; phase < phases; ++phase) {
		if (phase) { n = (int) r.range(1, 6); b.reconfigure((unsigned) n); }
		const int rounds = (int) r.range(1, 12);
		std::vector<std::atomic<int>> arrived(rounds + 1);
		for (auto & a : arrived) a = 0;
		std::vector<std::vector<long>> plain(n, std::vector<long>(rounds, 0)); // written before, read after: visibility
		std::atomic<int> gate { 0 }, finished { 0 };
		std::vector<std::thread> ts;
		for (int t = 0; t < n; ++t) {
			uint64_t sd = r.next();
			ts.emplace_back([&, t, sd] {
				vf::Watch w;
				vf::Rng g(sd);
				startTogether(gate, n);
				for (int k = 0; k < rounds; ++k) {
					vf::pause(g);
					plain[t][k] = 1000L * k + t + 1;
					++arrived[k];
					order.mark((uint64_t) t);
					b.countdown();
					order.mark(64 + (uint64_t) t);
					if (arrived[k].load() != n) vf::violation("barrier-early-release", "round " + to_string(k) + ": released after " + to_string(arrived[k].load()) + " of " + to_string(n) + " arrivals");
					else for (int o = 0; o < n; ++o)
						if (plain[o][k] != 1000L * k + o + 1) vf::violation("barrier-visibility", "a write made before the barrier is not seen after it");
				}
				++finished;
			});
		}
		finish(ts, finished, n, "barrier-stuck", "barrier of " + to_string(n) + ", " + to_string(rounds) + " rounds, phase " + to_string(phase));
		vf::count("barrier rounds", (uint64_t) rounds);
		vf::count("barrier passages", (uint64_t) (rounds * n));
		if (phase) vf::count("barrier reconfigurations");
	}
	vf::distinct(order.h);
	vf::sample("barrier phases=" + to_string(phases) + " last size=" + to_string(n));
}

// ---------------------------------------------------------------- once-only execution

#if defined(__SANITIZE_THREAD__)
#define PLAIN_EFFECT 0 // the executor orders with stand-alone fences, which ThreadSanitizer does not model
#else
#define PLAIN_EFFECT 1
#endif

static void once(int64_t, vf::Rng & r) {
	setInject(r);
	const int N = (int) r.range(1, 5), calls = (int) r.range(0, 4);
	const int throwing = r.chance(1, 3) ? (int) r.range(1, 2) : 0;
	const bool withDestructor = r.chance(2, 3);
	std::atomic<int> starts { 0 }, completed { 0 }, destroyed { 0 }, threw { 0 };
	std::atomic<long> value { 0 };
	long plain = 0;
	alignas(SingleTimeExecutor) unsigned char space[sizeof(SingleTimeExecutor)];
	memset(space, r.of({ 0x00, 0xff, 0x01, 0xaa }), sizeof space);
	uint64_t codeSeed = r.next();
	auto code = [&] {
		vf::Rng g(codeSeed);
		const int n = ++starts;
		vf::pause(g);
		if (n <= throwing) throw std::runtime_error("code failed");
		vf::pause(g);
		value = 42;
		if (PLAIN_EFFECT) plain = 42;
		++completed;
	};
	auto * e = withDestructor
		? new (space) SingleTimeExecutor(code, [&] { ++destroyed; })
		: new (space) SingleTimeExecutor(code);
	if (e->hasExecuted()) vf::violation("once-initially-executed", "a new executor says that it has executed");
	Order order;
	std::atomic<int> gate { 0 }, finished { 0 };
	std::vector<std::thread> ts;
	for (int t = 0; t < N; ++t) {
		uint64_t sd = r.next();
		ts.emplace_back([&, t, sd] {
			vf::Watch w;
			vf::Rng g(sd);
			startTogether(gate, N);
			for (int m = 0; m < calls; ++m) {
				vf::pause(g);
				bool ok = true;
				try { (*e)(); } catch (const std::runtime_error &) { ok = false; ++threw; }
				order.mark((uint64_t) t * 2 + (ok ? 1 : 0));
				if (ok && (completed.load() != 1 || value.load() != 42 || (PLAIN_EFFECT && plain != 42)))
					vf::violation("once-not-complete", "the call returned while the code had completed " + to_string(completed.load()) + " times");
			}
			++finished;
		});
	}
	finish(ts, finished, N, "once-stuck", "single time executor");
	const int total = N * calls;
	const int expectStarts = std::min(total, throwing + 1);
	if (starts != expectStarts || completed != (total > throwing ? 1 : 0) || threw != std::min(total, throwing))
		vf::violation("once-count", "calls " + to_string(total) + " failing first " + to_string(throwing) + ": code started " + to_string(starts.load()) + " completed " + to_string(completed.load()) + " exceptions " + to_string(threw.load()));
	if (e->hasExecuted() != (completed == 1)) vf::violation("once-has-executed", "completed " + to_string(completed.load()));
	e->~SingleTimeExecutor();
	if (destroyed != (withDestructor && completed == 1 ? 1 : 0))
		vf::violation("once-destructor", "destructor code ran " + to_string(destroyed.load()) + " times, code completed " + to_string(completed.load()));
	vf::count("executor calls", (uint64_t) total);
	vf::count("executor calls that threw", (uint64_t) threw.load());
	if (N > 1 && calls) vf::distinct(order.h);
}

struct Payload {
	std::unique_ptr<std::vector<int>> p;
	static std::atomic<long> live;
	Payload() { ++live; }
	explicit Payload(int n) : p(new std::vector<int>(100, n)) { ++live; }
	Payload(const Payload & o) : p(o.p ? new std::vector<int>(*o.p) : nullptr) { ++live; }
	Payload(Payload && o) noexcept : p(std::move(o.p)) { ++live; }
	Payload & operator = (const Payload & o) { p.reset(o.p ? new std::vector<int>(*o.p) : nullptr); return *this; }
	Payload & operator = (Payload && o) noexcept { p = std::move(o.p); return *this; }
	~Payload() { --live; }
	bool whole(int n) const { if (!p || p->size() != 100) return false; for (int v : *p) if (v != n) return false; return true; }
};
std::atomic<long> Payload::live { 0 };

static void lazy(int64_t, vf::Rng & r) {
	setInject(r);
	const long before = Payload::live;
	const int N = (int) r.range(1, 5), calls = (int) r.range(0, 4);
	const int throwing = r.chance(1, 3) ? (int) r.range(1, 2) : 0;
	const bool withDestruct = r.chance(2, 3);
	std::atomic<int> starts { 0 }, completed { 0 }, destroyed { 0 }, threw { 0 };
	Order order;
	{
		auto destruct = [&] (Payload & p) { ++destroyed; if (!p.whole(completed.load() ? 7 : -1)) vf::violation("lazy-destruct-value", "the destruct function did not get the constructed value"); };
		auto v = withDestruct ? std::make_unique<LazyValue<Payload>>(destruct) : std::make_unique<LazyValue<Payload>>();
		if (v->isConstructed()) vf::violation("lazy-initially-constructed", "a new lazy value says that it is constructed");
		std::vector<std::atomic<const Payload *>> seen(N);
		for (auto & s : seen) s = nullptr;
		std::atomic<int> gate { 0 }, finished { 0 };
		std::vector<std::thread> ts;
		uint64_t codeSeed = r.next();
		for (int t = 0; t < N; ++t) {
			uint64_t sd = r.next();
			ts.emplace_back([&, t, sd] {
				vf::Watch w;
				vf::Rng g(sd);
				startTogether(gate, N);
				for (int m = 0; m < calls; ++m) {
					vf::pause(g);
					try {
						Payload & p = (*v)([&] {
							vf::Rng c(codeSeed);
							const int n = ++starts;
							vf::pause(c);
							if (n <= throwing) throw std::runtime_error("construct failed");
							Payload made(7);
							vf::pause(c);
							++completed;
							return made;
						});
						if (!p.whole(7)) vf::violation("lazy-value-torn", "the value obtained is not the constructed one");
						seen[t] = &p;
						order.mark((uint64_t) t * 2 + 1);
					} catch (const std::runtime_error &) { ++threw; order.mark((uint64_t) t * 2); }
				}
				++finished;
			});
		}
		finish(ts, finished, N, "lazy-stuck", "lazy value");
		const int total = N * calls;
		if (starts != std::min(total, throwing + 1) || completed != (total > throwing ? 1 : 0) || threw != std::min(total, throwing))
			vf::violation("lazy-count", "calls " + to_string(total) + " failing first " + to_string(throwing) + ": constructions started " + to_string(starts.load()) + " completed " + to_string(completed.load()) + " exceptions " + to_string(threw.load()));
		if (v->isConstructed() != (completed == 1)) vf::violation("lazy-is-constructed", "completed " + to_string(completed.load()));
		const Payload * one = nullptr;
		for (auto & s : seen) if (s.load()) { if (one && one != s.load()) vf::violation("lazy-two-values", "two threads obtained different objects"); one = s.load(); }
		vf::count("lazy value calls", (uint64_t) total);
	}
	if (destroyed != (withDestruct && completed == 1 ? 1 : 0))
		vf::violation("lazy-destruct-count", "destruct ran " + to_string(destroyed.load()) + " times, constructed " + to_string(completed.load()));
	if (Payload::live != before) vf::violation("lazy-leak", "objects alive " + to_string(Payload::live.load() - before));
	if (N > 1 && calls) vf::distinct(order.h);
}

struct PerThread {
	static std::atomic<long> made, gone;
	std::thread::id owner = std::this_thread::get_id();
	int tag = 0;
	long counter = 0;
	PerThread() { ++made; }
	explicit PerThread(int t) : tag(t) { ++made; }
	~PerThread() { ++gone; if (owner != std::this_thread::get_id()) vf::violation("thread-local-destroyed-elsewhere", "an instance was destroyed by another thread"); }
};
std::atomic<long> PerThread::made { 0 }, PerThread::gone { 0 };

static void perThread(int64_t, vf::Rng & r) {
	setInject(r);
	const int N = (int) r.range(2, 6), slots = (int) r.range(1, 4), calls = (int) r.range(1, 30);
	const long m0 = PerThread::made, g0 = PerThread::gone;
	std::vector<std::unique_ptr<ThreadLocalInstance<PerThread>>> v;
	for (int s = 0; s < slots; ++s) v.push_back(std::make_unique<ThreadLocalInstance<PerThread>>());
	std::mutex m;
	std::set<PerThread *> all;
	std::atomic<int> gate { 0 }, finished { 0 };
	std::atomic<long> touched { 0 };
	Order order;
	std::vector<std::thread> ts;
	std::atomic<int> parked { 0 }, atRound { 0 }, replaced { 0 };
	const int rounds = (int) r.of({ 1, 1, 2, 3 });
	for (int t = 0; t < N; ++t) {
		uint64_t sd = r.next();
		ts.emplace_back([&, t, sd] {
			vf::Watch w;
			vf::Rng g(sd);
			std::vector<PerThread *> mine(slots, nullptr);
			std::vector<long> counts(slots, 0);
			startTogether(gate, N);
			for (int round = 0; round < rounds; ++round) {
			for (int c = 0; c < calls; ++c) {
				const int s = (int) g.below(slots);
				const bool custom = g.chance(1, 2);
				int made = 0;
				const int tag = t * 100 + s + 1;
				PerThread & p = custom ? (*v[s])([&] { ++made; return new PerThread(tag); }) : (*v[s])();
				if (p.owner != std::this_thread::get_id()) vf::violation("thread-local-shared", "a thread obtained an instance that another thread created");
				if (!mine[s]) {
					mine[s] = &p;
					if (custom && (made != 1 || p.tag != tag)) vf::violation("thread-local-factory", "first use did not take the instance from the supplied function");
					std::lock_guard<std::mutex> l(m);
					if (!all.insert(&p).second) vf::violation("thread-local-shared", "the same instance was given to two threads or two members");
					++touched;
				} else if (mine[s] != &p || made) vf::violation("thread-local-changed", "a later use gave a different instance");
				if (p.counter != counts[s]) vf::violation("thread-local-shared", "state of an instance was changed by someone else");
				p.counter = ++counts[s];
				vf::pause(g);
			}
			if (round + 1 == rounds) break;
			// The members are replaced while the threads live: nothing of the old ones may be found.
			std::fill(mine.begin(), mine.end(), nullptr);
			std::fill(counts.begin(), counts.end(), 0);
			if (atRound.fetch_add(1) == N - 1) {
				for (auto & x : v) { x.reset(); x = std::make_unique<ThreadLocalInstance<PerThread>>(); }
				{ std::lock_guard<std::mutex> l(m); all.clear(); }
				++replaced;
				atRound = 0;
			} else { const int now = round + 1; while (replaced.load() < now) std::this_thread::yield(); }
			}
			order.mark((uint64_t) t);
			// stay alive until all have recorded their instances: addresses stay distinct
			++parked;
			while (parked.load() < N) std::this_thread::yield();
			++finished;
		});
	}
	finish(ts, finished, N, "thread-local-stuck", "thread local instances");
	vf::count("replaced sets of per-thread instances", (uint64_t) (rounds - 1));
	if (PerThread::made - m0 != touched || PerThread::gone - g0 != touched)
		vf::violation("thread-local-lifetime", "used " + to_string(touched.load()) + " created " + to_string(PerThread::made - m0) + " destroyed after the threads ended " + to_string(PerThread::gone - g0));
	vf::count("per-thread instances", (uint64_t) touched.load());
	vf::distinct(order.h);
}

static vf::Mode m1("semaphore", semaphore), m2("semaphore-lock", semaphoreLock), m3("barrier", barrier), m4("once", once), m5("lazy", lazy), m6("per-thread", perThread);
