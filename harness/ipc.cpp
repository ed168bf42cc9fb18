// ipc.cpp : monitors of the shared memory queue (P05) and shared memory objects (P06).
#include <vf.hpp>
#include "inject.hpp"
#include <Balau/Serialization/SerializationMacros.hpp>
#include <Balau/Interprocess/SharedMemoryQueue.hpp>
#include <Balau/Interprocess/USharedMemoryObject.hpp>
#include <boost/serialization/string.hpp>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <optional>
#include <deque>

using namespace Balau;
using namespace Balau::Interprocess;

// ------------------------------------------------ names in shared memory

// Every name that this process creates is noted, so that what is left behind can be seen, and removed.
static std::mutex namesMutex;
static std::set<std::string> & namesCreated() { static auto * s = new std::set<std::string>; return *s; }
extern "C" int __real_shm_open(const char *, int, mode_t);
extern "C" int __wrap_shm_open(const char * name, int flags, mode_t mode) {
	const int r = __real_shm_open(name, flags, mode);
	if (r >= 0 && (flags & O_CREAT)) {
		std::lock_guard<std::mutex> l(namesMutex);
		namesCreated().insert(name[0] == '/' ? name + 1 : name);
	}
	return r;
}
static bool shmExists(const std::string & n) { struct stat s; return stat(("/dev/shm/" + n).c_str(), &s) == 0; }
static void removeNames() {
	std::lock_guard<std::mutex> l(namesMutex);
	for (auto & n : namesCreated()) shm_unlink(("/" + n).c_str());
	namesCreated().clear();
}
struct Cleaner { ~Cleaner() { removeNames(); } };
static std::string freshName(const char * p) {
	static std::atomic<int> n { 0 };
	return std::string("vf_") + p + "_" + std::to_string(getpid()) + "_" + std::to_string(n++);
}

// ------------------------------------------------ messages

struct Msg {
	int sender = -1;
	unsigned seq = 0;
	std::string body;
	template <typename A> void serialize(A & a, unsigned int) {
		a & BoostSerialization(sender) & BoostSerialization(seq) & BoostSerialization(body);
	}
};
static std::string bodyOf(int sender, unsigned seq, size_t size) {
	std::string s(size, 0);
	vf::Rng r(vf::mix((uint64_t) sender + 1, seq) ^ size);
	for (auto & c : s) c = (char) r.next();
	return s;
}
static Msg make(int sender, unsigned seq, size_t size) { return Msg { sender, seq, bodyOf(sender, seq, size) }; }
static bool intact(const Msg & m) { return m.body == bodyOf(m.sender, m.seq, m.body.size()); }
static std::string describe(const Msg & m) {
	return "sender " + std::to_string(m.sender) + " number " + std::to_string(m.seq) + " of " + std::to_string(m.body.size()) + " bytes";
}
using Queue = SharedMemoryQueue<Msg>;
static size_t serializedSize(const Msg & m) {
	std::ostringstream s;
	boost::archive::binary_oarchive a(s);
	a << BoostSerialization(m);
	return s.str().size();
}

static std::unique_ptr<Queue> another(Queue & q, vf::Rng & r) {
	if (r.chance(1, 2)) return std::make_unique<Queue>(q.getName());
	return std::make_unique<Queue>(OpenOrCreateSelector(), 3 + r.below(9), (unsigned) r.range(32, 600), q.getName());
}

static void useZone(vf::Rng & r) {
	setenv("TZ", r.of({ "UTC", "UTC-11", "UTC+9", "Europe/Rome" }), 1);
	tzset();
}

// ------------------------------------------------ one thread, exact model

static vf::Mode sequential("queue-sequential", [](int64_t, vf::Rng & r) {
	Cleaner cleaner;
	useZone(r);
	const unsigned capacity = (unsigned) r.range(2, 30);
	const unsigned chunk = (unsigned) r.range(r.chance(1, 2) ? 32 : 70, r.chance(1, 2) ? 130 : 500);
	const bool forbid = r.chance(1, 6);
	std::unique_ptr<Queue> q;
	switch (r.below(5)) {
		case 0: q = std::make_unique<Queue>(capacity, chunk, forbid); break;
		case 1: q = std::make_unique<Queue>(capacity, chunk, freshName("q"), forbid); break;
		case 2: q = std::make_unique<Queue>(OpenOrCreateSelector(), capacity, chunk, freshName("q"), forbid); break;
		default: q = std::make_unique<Queue>(capacity, chunk, freshName("q"), forbid); break;
	}
	std::vector<std::unique_ptr<Queue>> others;
	for (uint64_t n = r.below(3); n; --n) others.push_back(another(*q, r));
	struct Item { unsigned priority; Msg m; unsigned parts; };
	std::deque<Item> model;
	unsigned used = 0;
	unsigned seq = 0;
	uint64_t shape = vf::mix(capacity, chunk);
	const bool priorities = r.chance(1, 3);
	for (int n = 0; n < 60; ++n) {
		const bool viaOther = !others.empty() && r.chance(1, 2);
		Queue & w = viaOther ? *others[r.below(others.size())] : *q;
		const bool wForbids = !viaOther && forbid;
		const uint64_t op = r.below(9);
		if (op < 5) {
			const size_t size = r.chance(1, 3) ? r.below(4 * chunk) : r.chance(1, 2) ? r.below(20) : (size_t) std::max<int64_t>(0, (int64_t) chunk - 16 - (int64_t) r.range(20, 90));
			Msg m = make(1, seq, size);
			const size_t bytes = serializedSize(m);
			const bool oversize = bytes + 16 > chunk;
			const unsigned parts = oversize ? (unsigned) ((bytes + chunk - 17) / (chunk - 16)) : 1;
			const unsigned priority = priorities ? (unsigned) r.below(4) : 0;
			bool put = false;
			if (op < 3) {
				if (used + parts > capacity) continue;
				try { if (priority == 0 && r.chance(1, 2)) w.enqueue(m); else w.enqueue(m, priority); put = true; }
				catch (const Exception::SizeException &) {
					vf::check(oversize && wForbids, "size-refused", "an object of " + std::to_string(bytes) + " bytes was refused by a queue with buffers of " + std::to_string(chunk));
					vf::count("oversize refused");
				}
				if (put && oversize && wForbids) vf::violation("size-accepted", "an object of " + std::to_string(bytes) + " bytes was accepted by a queue that forbids it");
			} else {
				const auto wait = std::chrono::milliseconds(r.chance(1, 4) ? r.below(15) : 0);
				const auto t0 = std::chrono::steady_clock::now();
				try {
					switch (r.below(4)) {
						case 0: if (priority == 0) { put = w.tryEnqueue(m, wait); break; } [[fallthrough]];
						case 1: put = w.tryEnqueue(m, wait, priority); break;
						case 2: if (priority == 0 && wait.count() == 0) { put = w.tryEnqueue(m); break; } [[fallthrough]];
						default: if (wait.count() == 0) put = w.tryEnqueue(m, priority); else put = w.tryEnqueue(m, wait, priority); break;
					}
					vf::check(!oversize, "try-oversize", "trying to enqueue an oversize object did not throw");
					vf::check(put == (used < capacity), "try-full", std::string("trying to enqueue ") + (put ? "succeeded" : "failed") + " with " + std::to_string(used) + " of " + std::to_string(capacity) + " buffers used");
					if (!put) {
						vf::count("timed enqueues given up");
						const double ms = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t0).count();
						vf::check(ms + 2 >= (double) wait.count(), "early", "tryEnqueue gave up after " + std::to_string(ms) + " of " + std::to_string(wait.count()) + " ms");
					}
				} catch (const Exception::SizeException &) {
					vf::check(oversize, "size-refused", "trying to enqueue an object of " + std::to_string(bytes) + " bytes was refused by a queue with buffers of " + std::to_string(chunk));
					vf::count("oversize refused");
				}
			}
			if (put) {
				auto at = model.end();
				while (at != model.begin() && std::prev(at)->priority < priority) --at;
				model.insert(at, Item { priority, m, parts });
				used += parts;
				++seq;
				vf::count("objects sent");
				if (parts > 1) vf::count("objects in parts");
			}
			shape = vf::mix(shape, op * 64 + parts);
		} else {
			const bool blocking = op == 5 && !model.empty();
			bool success = r.chance(1, 2);
			bool reported = true;
			Msg m;
			const auto wait = std::chrono::milliseconds(r.chance(1, 6) ? r.below(12) : 0);
			const auto t0 = std::chrono::steady_clock::now();
			if (blocking) { m = q->dequeue(); success = true; }
			else switch (r.below(4)) {
				case 0: m = q->tryDequeue(); reported = false; break;
				case 1: m = q->tryDequeue(wait); reported = false; break;
				case 2: if (wait.count() == 0) { m = q->tryDequeue(success); break; } [[fallthrough]];
				default: m = q->tryDequeue(wait, success);
			}
			vf::check(!reported || success == !model.empty(), "success-flag", std::string("a dequeue reported ") + (success ? "success" : "failure") + " with " + std::to_string(model.size()) + " objects queued");
			if (model.empty()) {
				vf::check(m.sender == -1 && m.body.empty(), "invented", "an empty queue delivered " + describe(m));
				vf::count("dequeues given up");
			} else {
				auto & e = model.front();
				vf::check(m.sender == e.m.sender && m.seq == e.m.seq && m.body == e.m.body, "wrong-object", "expected " + describe(e.m) + " (parts " + std::to_string(e.parts) + ", priority " + std::to_string(e.priority) + "), received " + describe(m));
				used -= e.parts;
				model.pop_front();
				vf::count("objects received");
			}
			shape = vf::mix(shape, op * 64 + 63);
		}
		Queue & o = viaOther ? w : *q;
		vf::check(o.empty() == (used == 0), "empty", "empty() is " + std::to_string(o.empty()) + " with " + std::to_string(used) + " buffers used");
		vf::check(o.full() == (used == capacity), "full", "full() is " + std::to_string(o.full()) + " with " + std::to_string(used) + " of " + std::to_string(capacity) + " buffers used");
	}
	vf::distinct(shape);
});

static vf::Mode minimum("queue-minimum", [](int64_t, vf::Rng & r) {
	Cleaner cleaner;
	const unsigned chunk = (unsigned) r.below(80);
	bool made = false;
	try {
		if (r.chance(1, 2)) { Queue q(3, chunk, freshName("q")); made = true; }
		else { Queue q(OpenOrCreateSelector(), 3, chunk, freshName("q")); made = true; }
	} catch (const Exception::SizeException &) { vf::count("small buffers refused"); }
	vf::check(made == (chunk >= 32), "minimum", "a queue with buffers of " + std::to_string(chunk) + " bytes was " + (made ? "made" : "refused"));
	// A queue sized for a default object takes default objects in one piece, and others in parts.
	Queue d(4, true);
	d.enqueue(Msg());
	bool ok = false;
	Msg m = d.tryDequeue(std::chrono::milliseconds(0), ok);
	vf::check(ok && m.sender == -1 && m.body.empty(), "default-size", "a default object did not pass through a queue sized for it");
	Queue e(OpenOrCreateSelector(), 4, freshName("q"));
	e.enqueue(make(1, 1, 40));
	m = e.tryDequeue(ok);
	vf::check(ok && m.sender == 1 && m.body == bodyOf(1, 1, 40), "default-size", "an object did not pass through a queue sized for a default object");
	vf::distinct(vf::mix(chunk, made));
});

// ------------------------------------------------ parts in any interleaving

// Real parts, made by real enqueues on one queue, are handed to a second queue in an interleaving
// of the senders that is chosen here, between dequeues of the second queue's receiver.
static vf::Mode parts("queue-parts", [](int64_t, vf::Rng & r) {
	Cleaner cleaner;
	const unsigned chunk = (unsigned) r.range(40, 160);
	const unsigned senders = (unsigned) r.range(1, 4);
	struct Stream { std::deque<std::vector<char>> parts; std::deque<std::pair<unsigned, unsigned>> objects; };
	std::vector<Stream> streams(senders);
	struct Sent { Msg m; unsigned parts, given = 0; bool received = false; };
	std::map<std::pair<int, unsigned>, Sent> sent;
	std::vector<std::vector<std::pair<int, unsigned>>> partOwner(senders);
	Queue source(64, chunk, freshName("s"));
	boost::interprocess::message_queue raw(boost::interprocess::open_only, source.getName().c_str());
	unsigned total = 0;
	uint64_t shape = vf::mix(chunk, senders);
	for (unsigned s = 0; s < senders; ++s) {
		const unsigned count = (unsigned) r.range(1, 5);
		for (unsigned n = 0; n < count; ++n) {
			Msg m = make((int) s, n, r.chance(1, 3) ? 0 : r.below(chunk * 5));
			source.enqueue(m);
			unsigned parts = 0;
			while (raw.get_num_msg()) {
				std::vector<char> b(chunk);
				unsigned long size; unsigned pri;
				raw.receive(b.data(), b.size(), size, pri);
				b.resize(size);
				streams[s].parts.push_back(b);
				partOwner[s].push_back({ (int) s, n });
				++parts;
			}
			sent[{ (int) s, n }] = Sent { m, parts };
			++total;
			shape = vf::mix(shape, s * 100 + parts);
		}
	}
	Queue q(200, chunk, freshName("d"));
	boost::interprocess::message_queue feed(boost::interprocess::open_only, q.getName().c_str());
	std::vector<unsigned> next(senders), lastReceived(senders);
	std::vector<size_t> at(senders);
	unsigned received = 0;
	std::string history;
	auto left = [&] { for (unsigned s = 0; s < senders; ++s) if (at[s] < streams[s].parts.size()) return true; return false; };
	auto receive = [&](bool blocking) {
		bool success = r.chance(1, 2);
		Msg m = blocking ? (success = true, q.dequeue()) : q.tryDequeue(std::chrono::milliseconds(0), success);
		vf::check(success == (m.sender != -1), "success-flag", "success does not agree with the object delivered: " + describe(m) + " after " + history);
		if (m.sender == -1) { history += " -"; vf::count("dequeues given up"); return false; }
		history += " got(" + std::to_string(m.sender) + "," + std::to_string(m.seq) + ")";
		auto f = sent.find({ m.sender, m.seq });
		if (f == sent.end() || !intact(m) || f->second.m.body != m.body) vf::violation("corrupt", "received " + describe(m) + " after " + history);
		else if (f->second.received) vf::violation("twice", "received twice: " + describe(m) + " after " + history);
		else {
			f->second.received = true;
			++received;
			vf::check(f->second.given == f->second.parts, "incomplete", "received before all parts arrived: " + describe(m) + " after " + history);
			vf::check(m.seq == lastReceived[(size_t) m.sender]++, "order", "objects of sender " + std::to_string(m.sender) + " received out of order after " + history);
			vf::count("objects received");
			if (f->second.parts > 1) vf::count("objects in parts");
		}
		return true;
	};
	auto complete = [&] { unsigned n = 0; for (auto & e : sent) if (e.second.given == e.second.parts) ++n; return n; };
	auto open = [&] { for (auto & e : sent) if (e.second.given && e.second.given < e.second.parts) return true; return false; };
	while (left()) {
		const unsigned s = (unsigned) r.below(senders);
		if (at[s] < streams[s].parts.size()) {
			auto & b = streams[s].parts[at[s]];
			auto owner = partOwner[s][at[s]++];
			feed.send(b.data(), b.size(), 0);
			auto & e = sent[owner];
			++e.given;
			history += " " + std::to_string(owner.first) + "." + std::to_string(owner.second) + "[" + std::to_string(e.given) + "/" + std::to_string(e.parts) + "]";
			shape = vf::mix(shape, s);
		}
		while (r.chance(1, 4)) {
			const bool sure = !open() && complete() > received;
			const bool got = receive(sure && r.chance(1, 3));
			if (sure) vf::check(got, "withheld", "no object delivered though all that arrived are complete, after " + history);
			shape = vf::mix(shape, 77 + got);
			if (!open()) vf::check(q.empty() == (complete() == received), "empty", "empty() is " + std::to_string(q.empty()) + " with " + std::to_string(complete() - received) + " objects to come, after " + history);
		}
	}
	for (unsigned n = received; n < total; ++n) {
		const bool got = receive(r.chance(1, 2));
		vf::check(got, "lost", "only " + std::to_string(received) + " of " + std::to_string(total) + " objects delivered after " + history);
		if (!got) break;
	}
	vf::check(!receive(false), "invented", "an object too many after " + history);
	vf::check(q.empty(), "empty", "the queue is not empty after all objects were received");
	vf::distinct(shape);
	if (r.chance(1, 50)) vf::sample(history);
});

// ------------------------------------------------ threads

// A right to receive one object: there are as many as objects, and a receiver that gave up gives its right back and tries again.
template <typename T> static bool take(std::atomic<T> & taken, T total) {
	T t = taken.load();
	while (t < total) if (taken.compare_exchange_weak(t, t + 1)) return true;
	return false;
}

static vf::Mode threads("queue-threads", [](int64_t, vf::Rng & r) {
	Cleaner cleaner;
	useZone(r);
	const unsigned chunk = (unsigned) r.range(100, 200);
	const unsigned senders = (unsigned) r.range(1, 4);
	const bool oversize = r.chance(1, 2);
	const unsigned receivers = oversize ? 1 : (unsigned) r.range(1, 3);
	const unsigned each = (unsigned) r.range(5, 25);
	const unsigned capacity = (unsigned) r.range(1, 6);
	auto q = std::make_unique<Queue>(capacity, chunk, freshName("q"));
	std::vector<std::unique_ptr<Queue>> handles;
	for (unsigned s = 0; s < senders; ++s) handles.push_back(r.chance(1, 2) ? another(*q, r) : nullptr);
	inject::seed(r.next());
	inject::intensity = r.of({ 2, 5, 20 });
	inject::spuriousRate = 6;
	inject::enabled = true;
	std::atomic<unsigned> taken { 0 }, done { 0 }, sendersDone { 0 };
	const unsigned total = senders * each;
	std::vector<std::vector<Msg>> logs(receivers);
	std::atomic<uint64_t> givenUp { 0 };
	std::vector<std::thread> ts;
	std::vector<uint64_t> seeds;
	for (unsigned n = 0; n < senders + receivers; ++n) seeds.push_back(r.next());
	for (unsigned s = 0; s < senders; ++s) ts.emplace_back([&, s] {
		vf::Watch w;
		vf::Rng mine(seeds[s]);
		Queue & h = handles[s] ? *handles[s] : *q;
		for (unsigned n = 0; n < each; ++n) {
			const size_t size = oversize && mine.chance(1, 2) ? mine.below(4 * chunk) : mine.below(20);
			Msg m = make((int) s, n, size);
			if (size < 20 && mine.chance(1, 3)) {
				while (!h.tryEnqueue(m, std::chrono::milliseconds(mine.below(3)))) ++givenUp;
			} else h.enqueue(m);
			vf::pause(mine);
		}
		++sendersDone;
		++done;
	});
	for (unsigned k = 0; k < receivers; ++k) ts.emplace_back([&, k] {
		vf::Watch w;
		vf::Rng mine(seeds[senders + k]);
		int failures = 0; // In a row, after all was sent: what does not come then is lost.
		while (true) {
			if (mine.chance(1, 2)) {
				// A place in the order of blocking dequeues: never more of them than objects.
				if (!take(taken, total)) break;
				logs[k].push_back(q->dequeue());
			} else {
				if (!take(taken, total)) break;
				bool success = mine.chance(1, 2);
				Msg m = q->tryDequeue(std::chrono::milliseconds(mine.below(3)), success);
				if (success) { failures = 0; logs[k].push_back(m); }
				else { --taken; ++givenUp; if (sendersDone == senders && ++failures > 300) break; if (m.sender != -1) vf::violation("success-flag", "a failed dequeue delivered " + describe(m)); }
			}
			vf::pause(mine);
		}
		++done;
	});
	if (!vf::awaitOrStuck([&] { return done == senders + receivers; })) {
		vf::fatalViolation("stuck", "senders and receivers sleep for ever with " + std::to_string(total) + " objects to pass, capacity " + std::to_string(capacity));
	}
	for (auto & t : ts) t.join();
	inject::enabled = false;
	std::map<std::pair<int, unsigned>, int> seen;
	uint64_t shape = 0;
	for (auto & l : logs) {
		std::map<int, int64_t> last;
		for (auto & m : l) {
			if (m.sender < 0 || m.sender >= (int) senders || m.seq >= each || !intact(m)) { vf::violation("corrupt", "received " + describe(m)); continue; }
			vf::check(seen[{ m.sender, m.seq }]++ == 0, "twice", "received twice: " + describe(m));
			auto & before = last.emplace(m.sender, -1).first->second;
			vf::check((int64_t) m.seq > before, "order", "one receiver received number " + std::to_string(m.seq) + " of sender " + std::to_string(m.sender) + " after number " + std::to_string(before));
			before = m.seq;
			shape = vf::mix(shape, (uint64_t) m.sender);
			vf::count("objects received");
		}
		shape = vf::mix(shape, 1000);
	}
	vf::check(seen.size() == total, "lost", std::to_string(total - seen.size()) + " of " + std::to_string(total) + " objects were lost");
	vf::check(q->empty() && !q->full(), "empty", "the queue is not empty after all objects were received");
	vf::count("dequeues given up", givenUp);
	vf::distinct(shape);
});

// ------------------------------------------------ processes

template <typename T> struct Shared {
	T * p;
	explicit Shared(size_t n) { p = (T *) mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); size = n * sizeof(T); }
	~Shared() { munmap((void *) p, size); }
	size_t size;
};

// Scheduling activity of the children, as in vf::awaitOrStuck, for processes.
static uint64_t activity(const std::vector<pid_t> & pids, bool & runnable) {
	uint64_t sum = 0;
	runnable = false;
	for (pid_t p : pids) {
		char path[64], buf[4096];
		snprintf(path, sizeof path, "/proc/%d/status", p);
		int fd = open(path, O_RDONLY);
		if (fd < 0) continue;
		ssize_t n = read(fd, buf, sizeof buf - 1);
		close(fd);
		if (n <= 0) continue;
		buf[n] = 0;
		char * st = strstr(buf, "State:\t");
		if (st && (st[7] == 'R' || st[7] == 'D')) runnable = true;
		for (const char * k : { "\nvoluntary_ctxt_switches:", "\nnonvoluntary_ctxt_switches:" }) {
			char * q = strstr(buf, k);
			if (q) sum += strtoul(q + strlen(k), nullptr, 10);
		}
	}
	return sum;
}
// Children that have finished block in arrive() until all have: whoever made an object keeps it until then.
struct Assembly {
	int fd[2];
	unsigned size;
	Shared<std::atomic<unsigned>> arrived { 1 };
	explicit Assembly(unsigned n) : size(n) { if (pipe2(fd, O_CLOEXEC)) abort(); }
	~Assembly() { close(fd[0]); if (fd[1] >= 0) close(fd[1]); }
	void child() { prctl(PR_SET_PDEATHSIG, SIGKILL); close(fd[1]); fd[1] = -1; }
	void arrive() { char c; arrived.p->fetch_add(1); while (read(fd[0], &c, 1) < 0) {} }
	void poll() { if (fd[1] >= 0 && arrived.p->load() >= size) { close(fd[1]); fd[1] = -1; } }
};
static std::vector<int> waitAll(std::vector<pid_t> pids, const std::string & what, const std::function<void ()> & poll) {
	std::vector<int> result(pids.size(), -1);
	std::vector<bool> over(pids.size());
	size_t left = pids.size();
	uint64_t last = ~0ull;
	auto since = std::chrono::steady_clock::now();
	useconds_t nap = 100;
	bool failed = false;
	while (left) {
		poll();
		for (size_t n = 0; n < pids.size(); ++n) if (!over[n]) {
			int st;
			if (waitpid(pids[n], &st, WNOHANG) == pids[n]) { over[n] = true; result[n] = st; --left; if (st != 0) failed = true; }
		}
		if (!left) break;
		// One that failed leaves the others waiting for it.
		if (failed) { for (size_t n = 0; n < pids.size(); ++n) if (!over[n]) { kill(pids[n], SIGKILL); int st; waitpid(pids[n], &st, 0); } break; }
		usleep(nap);
		if (nap < 100000) { nap = nap * 3 / 2; continue; }
		bool runnable;
		std::vector<pid_t> alive;
		for (size_t n = 0; n < pids.size(); ++n) if (!over[n]) alive.push_back(pids[n]);
		const uint64_t a = activity(alive, runnable);
		const auto now = std::chrono::steady_clock::now();
		if (runnable || a != last) { last = a; since = now; continue; }
		if (std::chrono::duration<double>(now - since).count() > 6) {
			vf::violation("stuck", std::to_string(alive.size()) + " processes sleep for ever: " + what);
			for (pid_t p : alive) { kill(p, SIGKILL); int st; waitpid(p, &st, 0); }
			break;
		}
	}
	return result;
}

static vf::Mode processes("queue-processes", [](int64_t, vf::Rng & r) {
	Cleaner cleaner;
	const unsigned chunk = (unsigned) r.range(100, 200);
	const unsigned senders = (unsigned) r.range(1, 4);
	const bool oversize = r.chance(1, 2);
	const unsigned receivers = oversize ? 1 : (unsigned) r.range(1, 3);
	const unsigned each = (unsigned) r.range(4, 20);
	const unsigned capacity = (unsigned) r.range(1, 6);
	const unsigned total = senders * each;
	const std::string name = freshName("q");
	const bool together = r.chance(1, 3); // Everybody opens or creates.
	std::unique_ptr<Queue> q;
	if (!together) q = std::make_unique<Queue>(capacity, chunk, name);
	{ std::lock_guard<std::mutex> l(namesMutex); namesCreated().insert(name); namesCreated().insert(name + "_queueState_memory"); }
	Shared<std::atomic<int>> seen(total);
	Shared<std::atomic<int>> shared(16); // taken, violations, opened, finished
	Shared<int> trace(total);
	Assembly assembly(senders + receivers);
	std::vector<pid_t> pids;
	std::vector<uint64_t> seeds;
	for (unsigned n = 0; n < senders + receivers; ++n) seeds.push_back(r.next());
	for (unsigned n = 0; n < senders + receivers; ++n) {
		const pid_t p = fork();
		if (p == 0) {
			assembly.child();
			vf::Rng mine(seeds[n]);
			int bad = 0;
			try {
				std::unique_ptr<Queue> own;
				Queue * h = q.get();
				if (together) own = std::make_unique<Queue>(OpenOrCreateSelector(), capacity, chunk, name);
				else if (mine.chance(1, 2)) own = another(*q, mine);
				if (own) h = own.get();
				if (n < senders) {
					for (unsigned k = 0; k < each; ++k) {
						const size_t size = oversize && mine.chance(1, 2) ? mine.below(4 * chunk) : mine.below(20);
						Msg m = make((int) n, k, size);
						if (size < 20 && mine.chance(1, 4)) while (!h->tryEnqueue(m, std::chrono::milliseconds(mine.below(3)))) {}
						else h->enqueue(m);
						vf::pause(mine);
					}
					shared.p[2].fetch_add(1);
				} else {
					std::map<int, int64_t> last;
					int failures = 0;
					while (take(shared.p[0], (int) total)) {
						Msg m;
						if (mine.chance(1, 2)) m = h->dequeue();
						else {
							bool ok = mine.chance(1, 2);
							m = h->tryDequeue(std::chrono::milliseconds(mine.below(3)), ok);
							if (!ok) {
								shared.p[0].fetch_sub(1);
								if ((unsigned) shared.p[2].load() == senders && ++failures > 300) break;
								if (m.sender != -1) vf::violation("success-flag", "a failed dequeue delivered " + describe(m));
								continue;
							}
						}
						failures = 0;
						if (m.sender < 0 || m.sender >= (int) senders || m.seq >= each || !intact(m)) { vf::violation("corrupt", "received " + describe(m)); continue; }
						seen.p[(unsigned) m.sender * each + m.seq].fetch_add(1);
						auto & before = last.emplace(m.sender, -1).first->second;
						vf::check((int64_t) m.seq > before, "order", "one receiving process received number " + std::to_string(m.seq) + " of sender " + std::to_string(m.sender) + " after number " + std::to_string(before));
						before = m.seq;
						trace.p[shared.p[4].fetch_add(1) % (int) total] = m.sender;
						vf::pause(mine);
					}
				}
				// The one that made the queue's state keeps it until all have finished.
				assembly.arrive();
			} catch (const std::exception & e) {
				vf::violation("exception", std::string("a process using the queue failed: ") + e.what());
				bad = 5;
			}
			_exit(bad);
		}
		pids.push_back(p);
	}
	// A process may also come to nothing because another one failed: report what the processes say.
	auto ends = waitAll(pids, "senders " + std::to_string(senders) + ", receivers " + std::to_string(receivers) + ", capacity " + std::to_string(capacity), [&] { assembly.poll(); });
	bool clean = true;
	for (int e : ends) if (e != 0) clean = false;
	if (!clean) { for (int e : ends) if (e > 0) vf::violation("crash", "a process using the queue ended with status " + std::to_string(e)); return; }
	for (unsigned n = 0; n < total; ++n) {
		const int k = seen.p[n].load();
		vf::check(k == 1, k ? "twice" : "lost", "object " + std::to_string(n % each) + " of process " + std::to_string(n / each) + " was received " + std::to_string(k) + " times");
	}
	uint64_t shape = 0;
	for (unsigned n = 0; n < total; ++n) shape = vf::mix(shape, (uint64_t) trace.p[n]);
	vf::count("objects received", total);
	vf::count("processes", pids.size());
	vf::distinct(shape);
});

// ------------------------------------------------ shared memory objects

template <size_t N> struct State {
	std::atomic<int64_t> a;
	int64_t b;
	unsigned char fill[N];
	explicit State(int64_t v = 7) : a(v), b(~v) { for (size_t n = 0; n < N; ++n) fill[n] = (unsigned char) (v + (int64_t) n); }
	void set(int64_t v) { a = v; b = ~v; for (size_t n = 0; n < N; ++n) fill[n] = (unsigned char) (v + (int64_t) n); }
	// The value, or nothing when the parts disagree.
	std::optional<int64_t> get() const {
		const int64_t v = a;
		if (b != ~v) return {};
		for (size_t n = 0; n < N; ++n) if (fill[n] != (unsigned char) (v + (int64_t) n)) return {};
		return v;
	}
};

template <typename Object, size_t N, bool managed> static void objects(vf::Rng & r) {
	Cleaner cleaner;
	using T = State<N>;
	struct Model { int64_t value; bool live; };
	std::map<std::string, Model> model;      // by name; live: the owner exists, or leaked
	struct Handle { std::unique_ptr<Object> o; std::string name; bool owner; bool readOnly; unsigned generation; };
	std::map<std::string, unsigned> generation;
	std::vector<Handle> handles;
	std::vector<std::string> names;
	for (int n = 0; n < 3; ++n) names.push_back(freshName("o"));
	const std::string suffix = managed ? "_memory" : "";
	int64_t next = 1;
	std::string history;
	uint64_t shape = N;
	auto live = [&](const std::string & n) { return model.count(n) && model[n].live; };
	auto verify = [&](const std::string & where) {
		for (auto & h : handles) if (live(h.name) && h.generation == generation[h.name]) {
			const Object & c = *h.o;
			auto v = r.chance(1, 2) ? (*c).get() : c->get();
			vf::check(v && *v == model[h.name].value, "state", where + ": an instance of " + h.name + " shows " + (v ? std::to_string(*v) : "a torn state") + " instead of " + std::to_string(model[h.name].value) + " after" + history);
			vf::count("states compared");
		}
		for (auto & n : names) vf::check(shmExists(n + suffix) == live(n), live(n) ? "vanished" : "left-behind", where + ": the shared memory of " + n + (live(n) ? " does not exist" : " still exists") + " after" + history);
	};
	for (int step = 0; step < 25; ++step) {
		const std::string name = r.pick(names);
		const std::string tag = " " + name.substr(name.rfind('_') + 1);
		const uint64_t op = r.below(12);
		shape = vf::mix(shape, op * 7 + vf::hashStr(tag));
		if (op < 2) { // create; over an existing one only if nobody owns it (left by a process that died)
			bool owned = false;
			for (auto & h : handles) if (h.name == name && h.owner) owned = true;
			if (owned) continue;
			history += " create" + tag;
			const int64_t v = next++;
			handles.push_back({ std::make_unique<Object>(CreateOnlySelector(), name, v), name, true, false, ++generation[name] });
			model[name] = { v, true };
		} else if (op == 2) {
			history += " openOrCreate" + tag;
			const int64_t v = next++;
			const bool existed = live(name);
			handles.push_back({ std::make_unique<Object>(OpenOrCreateSelector(), name, v), name, !existed, false, existed ? generation[name] : ++generation[name] });
			if (!existed) model[name] = { v, true };
			vf::count(existed ? "opened or created: opened" : "opened or created: created");
		} else if (op < 5) {
			const bool ro = op == 4;
			history += (ro ? " openReadOnly" : " open") + tag;
			bool opened = false;
			try {
				Handle h { ro ? std::make_unique<Object>(OpenReadOnlySelector(), name) : std::make_unique<Object>(OpenOnlySelector(), name), name, false, ro, generation[name] };
				opened = true;
				handles.push_back(std::move(h));
			} catch (const std::exception &) { vf::count("missing objects refused"); }
			vf::check(opened == live(name), "open", std::string(opened ? "opened an object that does not exist" : "did not open an existing object") + " after" + history);
			if (opened && !live(name)) handles.pop_back();
		} else if (op < 8 && !handles.empty()) { // change
			Handle & h = r.pick(handles);
			if (h.readOnly || !live(h.name) || h.generation != generation[h.name]) continue;
			history += " set" + h.name.substr(h.name.rfind('_'));
			const int64_t v = next++;
			if (r.chance(1, 2)) (*h.o)->set(v); else (**h.o).set(v);
			model[h.name].value = v;
		} else if (op == 8 && !handles.empty()) { // destroy
			const size_t k = r.below(handles.size());
			history += (handles[k].owner ? " destroyOwner" : " destroy") + handles[k].name.substr(handles[k].name.rfind('_'));
			if (handles[k].owner) model[handles[k].name].live = false;
			handles.erase(handles.begin() + (std::ptrdiff_t) k);
			vf::count("instances destroyed");
		} else if (op == 9 && !handles.empty()) { // move
			Handle & h = r.pick(handles);
			history += " move" + h.name.substr(h.name.rfind('_'));
			auto moved = std::make_unique<Object>(std::move(*h.o));
			h.o = std::move(moved);
			if (handles.size() > 1 && r.chance(1, 2)) {
				// Assign to another instance: what that one had is given up.
				const size_t a = r.below(handles.size());
				size_t b = r.below(handles.size());
				if (a != b) {
					history += " assign" + handles[b].name.substr(handles[b].name.rfind('_')) + "->" + handles[a].name.substr(handles[a].name.rfind('_') + 1);
					if (handles[a].owner) model[handles[a].name].live = false;
					*handles[a].o = std::move(*handles[b].o);
					handles[a].name = handles[b].name;
					handles[a].owner = handles[b].owner;
					handles[a].readOnly = handles[b].readOnly;
					handles[a].generation = handles[b].generation;
					handles.erase(handles.begin() + (std::ptrdiff_t) b);
				}
			}
			vf::count("instances moved");
		} else if (op >= 10) { // a child process inherits, looks, changes, ends
			const unsigned end = (unsigned) r.below(3);
			const int64_t v = next++;
			const bool creates = !live(name) && r.chance(1, 3);
			// Unmanaged memory is mapped again in the child, managed memory is not.
			history += std::string(" child(") + (end == 0 ? "destroys" : end == 1 ? "ends" : "is killed") + (creates ? ",creates" : "") + ")" + tag;
			Handle * inherited = nullptr;
			for (auto & h : handles) if (h.name == name && live(name) && !h.readOnly && h.generation == generation[name] && r.chance(1, 2)) inherited = &h;
			const pid_t p = fork();
			if (p == 0) {
				int bad = 0;
				try {
					std::unique_ptr<Object> mine;
					Object * o = nullptr;
					if (creates) { mine = std::make_unique<Object>(CreateOnlySelector(), name, v); o = mine.get(); }
					else if (inherited) {
						o = inherited->o.get();
						if constexpr (!managed) o->remap();
					} else if (live(name)) { mine = std::make_unique<Object>(OpenOnlySelector(), name); o = mine.get(); }
					if (o && !creates) {
						auto s = (*o)->get();
						if (!s || *s != model[name].value) bad = 3;
						(*o)->set(v);
					}
					if (end == 0) { mine.reset(); handles.clear(); } else (void) mine.release();
					if (end == 2) kill(getpid(), SIGKILL);
				} catch (const std::exception & e) {
					vf::violation("child-exception", std::string(e.what()) + " in a child after" + history);
					bad = 4;
				}
				_exit(bad);
			}
			int st = 0;
			waitpid(p, &st, 0);
			vf::check(end == 2 ? (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) || st == 0 : st == 0, "child", "the child ended with status " + std::to_string(st) + " (3: it saw another state) after" + history);
			if (creates) { ++generation[name]; model[name] = { v, end != 0 }; { std::lock_guard<std::mutex> l(namesMutex); namesCreated().insert(name + suffix); } }
			else if (live(name)) model[name].value = v;
			vf::count("child processes");
		}
		verify("step " + std::to_string(step));
	}
	// Give up everything; what the killed children left is removed by creating over it.
	for (auto & n : names) {
		bool owned = false;
		for (auto & h : handles) if (h.name == n && h.owner) owned = true;
		if (live(n) && !owned) { Object o(CreateOnlySelector(), n, 5); vf::check(o->get() == 5, "state", "an object created over a left one has another state"); model[n].live = false; }
	}
	handles.clear();
	for (auto & m : model) m.second.live = false;
	verify("end");
	{
		removeNames();
		auto o = std::make_unique<Object>((int64_t) 99);
		vf::check((*o)->get() == 99, "state", "an object with a generated name has another state");
		std::vector<std::string> made;
		{ std::lock_guard<std::mutex> l(namesMutex); made.assign(namesCreated().begin(), namesCreated().end()); }
		vf::check(!made.empty(), "generated", "no shared memory was created for an object with a generated name");
		o.reset();
		for (auto & n : made) vf::check(!shmExists(n), "left-behind", "the shared memory of an object with a generated name still exists");
	}
	vf::distinct(shape);
	if (r.chance(1, 60)) vf::sample(history);
}

static vf::Mode managedObjects("objects-managed", [](int64_t, vf::Rng & r) {
	switch (r.below(3)) {
		case 0: objects<MSharedMemoryObject<State<1>>, 1, true>(r); break;
		case 1: objects<MSharedMemoryObject<State<700>>, 700, true>(r); break;
		default: objects<MSharedMemoryObject<State<9001>>, 9001, true>(r); break;
	}
});
static vf::Mode unmanagedObjects("objects-unmanaged", [](int64_t, vf::Rng & r) {
	switch (r.below(3)) {
		case 0: objects<USharedMemoryObject<State<1>>, 1, false>(r); break;
		case 1: objects<USharedMemoryObject<State<700>>, 700, false>(r); break;
		default: objects<USharedMemoryObject<State<9001>>, 9001, false>(r); break;
	}
});

// Many processes open or create at once: one object, constructed once.
static vf::Mode together("objects-together", [](int64_t, vf::Rng & r) {
	Cleaner cleaner;
	struct Counter { std::atomic<int64_t> n; explicit Counter(int64_t v = 0) : n(v) {} };
	using Object = MSharedMemoryObject<Counter>;
	const std::string name = freshName("o");
	{ std::lock_guard<std::mutex> l(namesMutex); namesCreated().insert(name + "_memory"); }
	const unsigned k = (unsigned) r.range(2, 6);
	Shared<std::atomic<int>> sh(4); // ready, added
	Shared<int64_t> finals(k);
	Assembly assembly(k);
	std::vector<pid_t> pids;
	for (unsigned n = 0; n < k; ++n) {
		const uint64_t seed = r.next();
		const pid_t p = fork();
		if (p == 0) {
			assembly.child();
			vf::Rng mine(seed);
			int bad = 0;
			try {
				sh.p[0].fetch_add(1);
				while ((unsigned) sh.p[0].load() < k) {}
				vf::pause(mine);
				Object o(OpenOrCreateSelector(), name, (int64_t) 1000);
				for (int m = 0; m < 50; ++m) { o->n.fetch_add(1); if (m % 16 == 0) vf::pause(mine); }
				sh.p[1].fetch_add(1);
				while ((unsigned) sh.p[1].load() < k) usleep(100);
				finals.p[n] = o->n.load();
				assembly.arrive();
			} catch (const std::exception & e) {
				vf::violation("child-exception", std::string(e.what()) + " while processes open or create together");
				bad = 4;
				sh.p[1].fetch_add(1);
			}
			_exit(bad);
		}
		pids.push_back(p);
	}
	auto ends = waitAll(pids, "processes that open or create one object", [&] { assembly.poll(); });
	bool clean = true;
	for (int e : ends) if (e < 0) clean = false; else vf::check(e == 0, "child", "a process that opened or created the object ended with status " + std::to_string(e));
	if (!clean) return;
	for (unsigned n = 0; n < k; ++n) vf::check(finals.p[n] == 1000 + 50 * (int64_t) k, "not-one-object", "process " + std::to_string(n) + " of " + std::to_string(k) + " counts " + std::to_string(finals.p[n]) + " instead of " + std::to_string(1000 + 50 * k));
	vf::check(!shmExists(name + "_memory"), "left-behind", "the shared memory still exists after all processes that opened or created it ended");
	vf::count("processes", k);
	vf::distinct(vf::mix(k, r.next()));
});
