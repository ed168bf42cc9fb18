// P01 (array blocking queue) and P02 (synchronised queue): recorded histories under
// schedule perturbation, checked offline for linearizability, plus stress accounting.
#include "inject.hpp"
#include "linearize.hpp"
#include <functional>
#include <list>
#include <Balau/Container/ArrayBlockingQueue.hpp>
#include <Balau/Container/SynchronizedQueue.hpp>

using namespace Balau::Container;

static std::atomic<uint64_t> stamp { 1 };
static uint64_t now() { return stamp.fetch_add(1, std::memory_order_relaxed); }
static std::atomic<long> live { 0 };

// A move-only value with a heap payload: lost, duplicated or torn values show.
struct Item {
	std::unique_ptr<uint64_t> p;
	Item() { ++live; }
	explicit Item(uint64_t v) : p(new uint64_t(v)) { ++live; }
	Item(Item && o) noexcept : p(std::move(o.p)) { ++live; }
	Item & operator = (Item && o) noexcept { p = std::move(o.p); return *this; }
	~Item() { --live; }
	uint64_t v() const { return p ? *p : 0; }
};

struct Recorder {
	std::vector<lin::Op> ops;
	int t = 0;
	void add(lin::Kind k, uint64_t v, uint64_t inv) { ops.push_back({ k, v, inv, now(), t }); }
};

static void startTogether(std::atomic<int> & gate, int n) {
	gate.fetch_add(1);
	while (gate.load() < n) std::this_thread::yield();
}

static void setInject(vf::Rng & r) {
	inject::seed(r.next());
	inject::intensity = r.of({ 1u, 2u, 4u, 16u, 1000u });
	inject::spuriousRate = r.of({ 2u, 4u, 16u, 100000u });
	inject::enabled = true;
}

static uint64_t interleaving(std::vector<lin::Op> h) {
	std::sort(h.begin(), h.end(), [] (auto & a, auto & b) { return a.inv < b.inv; });
	uint64_t x = 7;
	for (auto & o : h) x = vf::mix(x, (uint64_t) o.k * 64 + (uint64_t) o.thread + (o.v << 12));
	std::sort(h.begin(), h.end(), [] (auto & a, auto & b) { return a.res < b.res; });
	for (auto & o : h) x = vf::mix(x, (uint64_t) o.k * 64 + (uint64_t) o.thread + (o.v << 12));
	return x;
}

static bool overlapping(std::vector<lin::Op> & h) {
	for (auto & a : h) for (auto & b : h) if (a.thread != b.thread && a.inv < b.res && b.inv < a.res) return true;
	return false;
}

static void judge(std::vector<lin::Op> & h, size_t cap, const char * what) {
	auto verdict = lin::check(h, cap);
	vf::count(std::string("histories checked"));
	vf::count("operations recorded", h.size());
	if (verdict == lin::Unknown) { vf::count("histories undecided"); return; }
	if (overlapping(h)) { vf::count("histories with overlap"); vf::distinct(interleaving(h)); }
	if (verdict == lin::No) {
		vf::violation(std::string("not-linearizable:") + what, "capacity " + std::to_string(cap) + " history " + lin::show(h));
	} else if (h.size() < 14) vf::sample(std::string(what) + " cap=" + std::to_string(cap) + " " + lin::show(h));
}

// ---------------------------------------------------------------- array blocking queue

static void abqHistory(int64_t, vf::Rng & r) {
	const size_t cap = (size_t) r.of({ 1, 1, 2, 2, 3, 5 });
	const int P = (int) r.range(1, 3), C = (int) r.range(1, 3);
	int perP = (int) r.range(1, P == 1 ? 7 : 4);
	const int total = P * perP;
	std::vector<int> quota(C, 0);
	for (int m = 0; m < total; ++m) ++quota[r.below(C)];
	const bool observer = r.chance(1, 3);
	setInject(r);
	const long liveBefore = live;
	std::vector<Recorder> rec(P + C + 1);
	std::atomic<int> finished { 0 };
	std::atomic<int> fullCalls { 0 }, spaceCalls { 0 };
	{
		auto full = [&] (const Item & i) { if (!i.p) vf::violation("callback-object", "queueIsFull got an empty object"); ++fullCalls; inject::point(); };
		auto space = [&] (const Item & i) { if (!i.p) vf::violation("callback-object", "spaceNowAvailable got an empty object"); ++spaceCalls; inject::point(); };
		auto q = r.chance(1, 2)
			? std::make_unique<ArrayBlockingQueue<Item>>((unsigned) cap)
			: std::make_unique<ArrayBlockingQueue<Item>>((unsigned) cap, full, space);
		std::atomic<int> gate { 0 };
		const int N = P + C + (observer ? 1 : 0);
		std::vector<std::thread> ts;
		for (int t = 0; t < P; ++t) {
			uint64_t s = r.next();
			ts.emplace_back([&, t, s] {
				vf::Watch w;
				vf::Rng g(s);
				Recorder & R = rec[t];
				R.t = t;
				startTogether(gate, N);
				for (int m = 0; m < perP; ++m) {
					const uint64_t v = (uint64_t) (t + 1) * 100 + m + 1;
					bool in = false;
					vf::pause(g);
					int tries = (int) g.below(3);
					for (int k = 0; k < tries && !in; ++k) {
						const int style = (int) g.below(3);
						const auto wait = std::chrono::milliseconds(style ? (int64_t) g.below(3) : 0);
						const auto t0 = std::chrono::steady_clock::now();
						const uint64_t inv = now();
						int f = 0, sp = 0;
						if (style == 0) in = q->tryEnqueue(Item(v));
						else if (style == 1) in = q->tryEnqueue(Item(v), wait);
						else in = q->tryEnqueue(Item(v), wait, [&] (const Item & i) { f += i.v() == v; }, [&] (const Item & i) { sp += i.v() == v; });
						R.add(in ? lin::Enq : lin::EnqFail, v, inv);
						if (!in && style) {
							vf::count("timed enqueues refused");
							const auto el = std::chrono::steady_clock::now() - t0;
							if (el + std::chrono::milliseconds(1) < wait)
								vf::violation("early-timeout:enqueue", "refused after " + std::to_string(std::chrono::duration<double>(el).count()));
						}
						if (style == 2 && !(in ? (f == sp && f <= 1) : (f == 1 && sp == 0)))
							vf::violation("callback-protocol:tryEnqueue", "in=" + std::to_string(in) + " full calls " + std::to_string(f) + " space calls " + std::to_string(sp));
					}
					if (!in) {
						const uint64_t inv = now();
						if (g.chance(1, 2)) q->enqueue(Item(v));
						else {
							int f = 0, sp = 0;
							q->enqueue(Item(v), [&] (const Item & i) { f += i.v() == v; }, [&] (const Item & i) { sp += i.v() == v; });
							if (f != sp || f > 1) vf::violation("callback-protocol:enqueue", "full calls " + std::to_string(f) + " space calls " + std::to_string(sp));
							if (f) vf::count("enqueues that blocked");
						}
						R.add(lin::Enq, v, inv);
					}
				}
				++finished;
			});
		}
		for (int c = 0; c < C; ++c) {
			uint64_t s = r.next();
			ts.emplace_back([&, c, s] {
				vf::Watch w;
				vf::Rng g(s);
				Recorder & R = rec[P + c];
				R.t = P + c;
				startTogether(gate, N);
				for (int m = 0; m < quota[c]; ++m) {
					vf::pause(g);
					bool got = false;
					int tries = (int) g.below(3);
					for (int k = 0; k < tries && !got; ++k) {
						const int style = (int) g.below(4);
						const auto wait = std::chrono::milliseconds(style >= 2 ? (int64_t) g.below(3) : 0);
						const auto t0 = std::chrono::steady_clock::now();
						const uint64_t inv = now();
						Item i;
						bool ok = false;
						if (style == 0) { i = q->tryDequeue(); ok = (bool) i.p; }
						else if (style == 1) i = q->tryDequeue(ok);
						else if (style == 2) { i = q->tryDequeue(wait); ok = (bool) i.p; }
						else { ok = g.chance(1, 2); i = q->tryDequeue(wait, ok); }
						if (ok != (bool) i.p) vf::violation("success-flag", "success=" + std::to_string(ok) + " but object present=" + std::to_string((bool) i.p));
						got = (bool) i.p;
						R.add(got ? lin::Deq : lin::DeqFail, i.v(), inv);
						if (!got && style >= 2) {
							const auto el = std::chrono::steady_clock::now() - t0;
							if (el + std::chrono::milliseconds(1) < wait)
								vf::violation("early-timeout:dequeue", "refused after " + std::to_string(std::chrono::duration<double>(el).count()));
						}
					}
					if (!got) {
						const uint64_t inv = now();
						Item i = q->dequeue();
						R.add(lin::Deq, i.v(), inv);
					}
				}
				++finished;
			});
		}
		if (observer) {
			uint64_t s = r.next();
			ts.emplace_back([&, s] {
				vf::Watch w;
				vf::Rng g(s);
				Recorder & R = rec[P + C];
				R.t = P + C;
				startTogether(gate, N);
				for (int m = 0; m < 4; ++m) {
					vf::pause(g);
					uint64_t inv = now();
					if (g.chance(1, 2)) { bool b = q->full(); R.add(b ? lin::Full : lin::NotFull, 0, inv); }
					else { bool b = q->empty(); R.add(b ? lin::Empty : lin::NotEmpty, 0, inv); }
				}
				++finished;
			});
		}
		if (!vf::awaitOrStuck([&] { return finished.load() == N; })) {
			std::vector<lin::Op> h;
			for (auto & x : rec) h.insert(h.end(), x.ops.begin(), x.ops.end());
			vf::fatalViolation("stuck", "every thread asleep for good with work left (cap " + std::to_string(cap) + ", empty=" +
				std::to_string(q->empty()) + ", full=" + std::to_string(q->full()) + "): " + lin::show(h));
		}
		for (auto & t : ts) t.join();
		inject::enabled = false;
		if (!q->empty() || q->full()) vf::violation("final-state", "queue not empty after everything was taken");
		std::vector<lin::Op> h;
		for (auto & x : rec) h.insert(h.end(), x.ops.begin(), x.ops.end());
		judge(h, cap, "array-blocking-queue");
		if (fullCalls != spaceCalls && fullCalls < spaceCalls) vf::violation("callback-protocol", "more space than full callbacks");
	}
	if (live != liveBefore) vf::violation("leak", "objects alive afterwards: " + std::to_string(live - liveBefore));
}

static void abqStress(int64_t, vf::Rng & r) {
	const size_t cap = (size_t) r.of({ 1, 2, 3, 7, 64 });
	const int P = (int) r.range(1, 6), C = (int) r.range(1, 6);
	const int perP = (int) r.range(50, 400);
	const int total = P * perP;
	setInject(r);
	inject::intensity = r.of({ 8u, 64u, 100000u });
	std::vector<std::vector<uint64_t>> got(C);
	std::atomic<int> finished { 0 }, taken { 0 }, inFlight { 0 }, maxIn { 0 };
	ArrayBlockingQueue<Item> q((unsigned) cap);
	std::vector<std::thread> ts;
	for (int t = 0; t < P; ++t) {
		uint64_t s = r.next();
		ts.emplace_back([&, t, s] {
			vf::Watch w;
			vf::Rng g(s);
			for (int m = 0; m < perP; ++m) {
				const uint64_t v = (uint64_t) (t + 1) << 32 | (uint64_t) (m + 1);
				if (!(g.chance(1, 3) && q.tryEnqueue(Item(v), std::chrono::milliseconds(g.below(2))))) q.enqueue(Item(v));
				// completed insertions minus started removals never exceed the capacity
				int n = ++inFlight;
				if (n > (int) cap) vf::violation("over-capacity", std::to_string(n) + " objects inside a queue of capacity " + std::to_string(cap));
			}
			++finished;
		});
	}
	for (int c = 0; c < C; ++c) {
		uint64_t s = r.next();
		ts.emplace_back([&, c, s] {
			vf::Watch w;
			vf::Rng g(s);
			while (taken.fetch_add(1) < total) {
				--inFlight;
				bool ok = false;
				Item i;
				if (g.chance(1, 3)) i = q.tryDequeue(std::chrono::milliseconds(g.below(2)), ok);
				if (!ok) i = q.dequeue();
				got[c].push_back(i.v());
			}
			++finished;
		});
	}
	if (!vf::awaitOrStuck([&] { return finished.load() == P + C; }))
		vf::fatalViolation("stuck", "every thread asleep for good with work left, cap " + std::to_string(cap));
	for (auto & t : ts) t.join();
	inject::enabled = false;
	std::map<uint64_t, int> n;
	uint64_t order = 1;
	for (auto & g : got) {
		std::map<uint64_t, uint64_t> lastOf;
		for (auto v : g) {
			++n[v];
			order = vf::mix(order, v);
			auto & l = lastOf[v >> 32];
			if ((v & 0xffffffff) <= l) vf::violation("fifo", "a consumer saw " + std::to_string(v & 0xffffffff) + " after " + std::to_string(l) + " of the same producer");
			l = v & 0xffffffff;
		}
	}
	vf::distinct(order);
	bool exact = (int) n.size() == total;
	for (auto & e : n) exact = exact && e.second == 1 && e.first;
	if (!exact) vf::violation("exactly-once", std::to_string(total) + " put, " + std::to_string(n.size()) + " distinct taken");
	vf::count("stress objects", (uint64_t) total);
}

// ---------------------------------------------------------------- synchronised queue

static void sqHistory(int64_t, vf::Rng & r) {
	const int T = (int) r.range(2, 4);
	const int per = (int) r.range(2, T == 2 ? 7 : 5);
	setInject(r);
	const long liveBefore = live;
	std::vector<Recorder> rec(T + 1);
	std::atomic<int> finished { 0 }, gate { 0 };
	{
		SynchronizedQueue<Item> q;
		std::vector<std::thread> ts;
		for (int t = 0; t < T; ++t) {
			uint64_t s = r.next();
			ts.emplace_back([&, t, s] {
				vf::Watch w;
				vf::Rng g(s);
				Recorder & R = rec[t];
				R.t = t;
				startTogether(gate, T);
				for (int m = 0; m < per; ++m) {
					vf::pause(g);
					const uint64_t inv = now();
					const int k = (int) g.below(5);
					if (k < 2) { uint64_t v = (uint64_t) (t + 1) * 100 + m + 1; q.enqueue(Item(v)); R.add(lin::Enq, v, inv); }
					else if (k < 4) {
						try { Item i = q.dequeue(); R.add(lin::Deq, i.v(), inv); }
						catch (const Balau::Exception::EmptyException &) { R.add(lin::DeqFail, 0, inv); vf::count("dequeues refused (empty)"); }
					}
					else { bool b = q.empty(); R.add(b ? lin::Empty : lin::NotEmpty, 0, inv); }
				}
				++finished;
			});
		}
		if (!vf::awaitOrStuck([&] { return finished.load() == T; })) vf::fatalViolation("stuck", "operations that never block did not finish");
		for (auto & t : ts) t.join();
		inject::enabled = false;
		Recorder & R = rec[T];
		R.t = T;
		while (true) { // drain what is left, as part of the history
			uint64_t inv = now();
			bool e = q.empty();
			R.add(e ? lin::Empty : lin::NotEmpty, 0, inv);
			inv = now();
			try { Item i = q.dequeue(); R.add(lin::Deq, i.v(), inv); }
			catch (const Balau::Exception::EmptyException &) { R.add(lin::DeqFail, 0, inv); break; }
			if (R.ops.size() > 200) break;
		}
		std::vector<lin::Op> h;
		for (auto & x : rec) h.insert(h.end(), x.ops.begin(), x.ops.end());
		judge(h, 1000000, "synchronised-queue");
	}
	if (live != liveBefore) vf::violation("leak", "objects alive afterwards: " + std::to_string(live - liveBefore));
}

static void sqStress(int64_t, vf::Rng & r) {
	const int P = (int) r.range(1, 5), C = (int) r.range(1, 5);
	const int perP = (int) r.range(50, 500);
	const int total = P * perP;
	setInject(r);
	inject::intensity = r.of({ 8u, 64u, 100000u });
	SynchronizedQueue<Item> q;
	std::vector<std::vector<uint64_t>> got(C);
	std::atomic<int> taken { 0 }, finished { 0 };
	std::vector<std::thread> ts;
	for (int t = 0; t < P; ++t) ts.emplace_back([&, t] {
		for (int m = 0; m < perP; ++m) q.enqueue(Item((uint64_t) (t + 1) << 32 | (uint64_t) (m + 1)));
		++finished;
	});
	std::atomic<bool> abandon { false };
	for (int c = 0; c < C; ++c) ts.emplace_back([&, c] {
		while (taken.load() < total && !abandon.load()) {
			const bool producersDone = finished.load() == P;
			try { got[c].push_back(q.dequeue().v()); ++taken; }
			catch (const Balau::Exception::EmptyException &) {
				if (producersDone) break; // everything was put before this refusal: nothing may be left for us
				std::this_thread::yield();
			}
		}
	});
	for (auto & t : ts) t.join();
	inject::enabled = false;
	std::map<uint64_t, int> n;
	uint64_t order = 1;
	for (auto & g : got) {
		std::map<uint64_t, uint64_t> lastOf;
		for (auto v : g) {
			++n[v];
			order = vf::mix(order, v);
			auto & l = lastOf[v >> 32];
			if ((v & 0xffffffff) <= l) vf::violation("fifo", "out of order for one producer");
			l = v & 0xffffffff;
		}
	}
	vf::distinct(order);
	bool exact = (int) n.size() == total;
	for (auto & e : n) exact = exact && e.second == 1 && e.first;
	if (!exact) vf::violation("exactly-once", std::to_string(total) + " put, " + std::to_string(n.size()) + " distinct taken");
	vf::count("stress objects", (uint64_t) total);
}

static vf::Mode m1("abq-history", abqHistory), m2("abq-stress", abqStress), m3("sq-history", sqHistory), m4("sq-stress", sqStress);
