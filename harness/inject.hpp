//
// inject.hpp : schedule perturbation by link-time interposition (-Wl,--wrap=...).
// Before and after every mutex operation, condition wait and notification that the code
// under test performs, the calling thread may yield, spin or sleep for a moment; and a
// condition wait may return spuriously, which the C++ standard allows at any time.
// Everything injected is legal behaviour of the platform: correct code stays correct.
//
#pragma once
#include <vf.hpp>
#include <condition_variable>
#include <pthread.h>

namespace inject {
inline std::atomic<bool> enabled { false };
inline std::atomic<unsigned> intensity { 4 }; // 1 in n
inline std::atomic<unsigned> spuriousRate { 6 }; // 1 in n
inline std::atomic<uint64_t> epoch { 1 };
inline std::atomic<uint64_t> points { 0 }, spurious { 0 };
inline vf::Rng & rng() {
	thread_local vf::Rng r(0);
	thread_local uint64_t e = 0;
	thread_local uint64_t me = 0;
	uint64_t now = epoch.load(std::memory_order_relaxed);
	if (e != now) {
		if (!me) me = (uint64_t) gettid();
		e = now;
		r.s = vf::mix(now, me);
	}
	return r;
}
inline void seed(uint64_t s) { epoch.store(s | 1, std::memory_order_relaxed); }
inline void point() {
	if (!enabled.load(std::memory_order_relaxed)) return;
	vf::Rng & r = rng();
	points.fetch_add(1, std::memory_order_relaxed);
	if (r.chance(1, intensity.load(std::memory_order_relaxed))) vf::pause(r);
}
inline bool wakeSpuriously() {
	if (!enabled.load(std::memory_order_relaxed)) return false;
	if (!rng().chance(1, spuriousRate.load(std::memory_order_relaxed))) return false;
	spurious.fetch_add(1, std::memory_order_relaxed);
	return true;
}
} // namespace inject

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable *, std::unique_lock<std::mutex> *);
void __real__ZNSt18condition_variable10notify_oneEv(std::condition_variable *);
void __real__ZNSt18condition_variable10notify_allEv(std::condition_variable *);

int __wrap_pthread_mutex_lock(pthread_mutex_t * m) {
	inject::point();
	return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m) {
	inject::point();
	int r = __real_pthread_mutex_unlock(m);
	inject::point();
	return r;
}
int __wrap_pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t) {
	if (inject::wakeSpuriously()) {
		__real_pthread_mutex_unlock(m);
		inject::point();
		__real_pthread_mutex_lock(m);
		return 0;
	}
	return __real_pthread_cond_clockwait(c, m, k, t);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t) {
	if (inject::wakeSpuriously()) {
		__real_pthread_mutex_unlock(m);
		inject::point();
		__real_pthread_mutex_lock(m);
		return 0;
	}
	return __real_pthread_cond_timedwait(c, m, t);
}
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable * c, std::unique_lock<std::mutex> * l) {
	if (inject::wakeSpuriously()) {
		__real_pthread_mutex_unlock(l->mutex()->native_handle());
		inject::point();
		__real_pthread_mutex_lock(l->mutex()->native_handle());
		return;
	}
	__real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l);
}
void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable * c) {
	inject::point();
	__real__ZNSt18condition_variable10notify_oneEv(c);
	inject::point();
}
void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable * c) {
	inject::point();
	__real__ZNSt18condition_variable10notify_allEv(c);
	inject::point();
}
}
