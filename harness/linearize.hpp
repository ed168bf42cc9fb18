//
// linearize.hpp : offline checker (Wing & Gong, with memoisation) of a recorded history of
// queue operations against the sequential specification of a bounded FIFO queue.
//
#pragma once
#include <vf.hpp>
#include <deque>

namespace lin {
enum Kind { Enq, Deq, EnqFail, DeqFail, Full, NotFull, Empty, NotEmpty };
struct Op { Kind k; uint64_t v; uint64_t inv; uint64_t res; int thread; };
inline const char * name(Kind k) {
	static const char * n[] = { "enq", "deq", "enq-refused", "deq-refused", "full", "!full", "empty", "!empty" };
	return n[k];
}
inline std::string show(std::vector<Op> h) {
	std::sort(h.begin(), h.end(), [] (auto & a, auto & b) { return a.inv < b.inv; });
	std::string s;
	for (auto & o : h) {
		char b[96];
		snprintf(b, sizeof b, "[t%d %s %llu %llu-%llu] ", o.thread, name(o.k), (unsigned long long) o.v, (unsigned long long) o.inv, (unsigned long long) o.res);
		s += b;
	}
	return s;
}
enum Verdict { Yes, No, Unknown };

struct Checker {
	std::vector<Op> h;
	size_t cap;
	std::unordered_set<uint64_t> seen;
	std::vector<bool> done;
	std::deque<uint64_t> q;
	uint64_t nodes = 0, limit = 3000000;

	Verdict rec(size_t left) {
		if (!left) return Yes;
		if (++nodes > limit) return Unknown;
		uint64_t key = 1469598103934665603ull;
		for (size_t m = 0; m < h.size(); ++m) { key ^= (uint64_t) done[m] + 1; key *= 1099511628211ull; }
		for (auto v : q) { key ^= v + 7; key *= 1099511628211ull; key ^= key >> 29; }
		if (!seen.insert(key).second) return No;
		uint64_t minRes = ~0ull;
		for (size_t m = 0; m < h.size(); ++m) if (!done[m] && h[m].res < minRes) minRes = h[m].res;
		bool unknown = false;
		for (size_t m = 0; m < h.size(); ++m) {
			if (done[m] || h[m].inv > minRes) continue;
			Op & o = h[m];
			Verdict r = No;
			switch (o.k) {
				case Enq:
					if (q.size() < cap) { q.push_back(o.v); done[m] = true; r = rec(left - 1); done[m] = false; q.pop_back(); }
					break;
				case Deq:
					if (!q.empty() && q.front() == o.v) { q.pop_front(); done[m] = true; r = rec(left - 1); done[m] = false; q.push_front(o.v); }
					break;
				case EnqFail: case Full:
					if (q.size() == cap) { done[m] = true; r = rec(left - 1); done[m] = false; }
					break;
				case DeqFail: case Empty:
					if (q.empty()) { done[m] = true; r = rec(left - 1); done[m] = false; }
					break;
				case NotFull:
					if (q.size() != cap) { done[m] = true; r = rec(left - 1); done[m] = false; }
					break;
				case NotEmpty:
					if (!q.empty()) { done[m] = true; r = rec(left - 1); done[m] = false; }
					break;
			}
			if (r == Yes) return Yes;
			if (r == Unknown) unknown = true;
		}
		return unknown ? Unknown : No;
	}
	Verdict run() { done.assign(h.size(), false); return rec(h.size()); }
};
inline Verdict check(std::vector<Op> h, size_t cap) {
	std::sort(h.begin(), h.end(), [] (auto & a, auto & b) { return a.inv < b.inv; });
	Checker c { std::move(h), cap, {}, {}, {} };
	return c.run();
}
} // namespace lin
