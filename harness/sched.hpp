// Schedule perturbation: the harness is linked with --wrap on the synchronisation entry points the code under test
// calls, so that lock/unlock/wait/notify sites get random delays and condition waits get spurious wake-ups (both
// legal behaviours of the primitives). Off unless a case turns it on.
#pragma once
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <chrono>
#include <thread>
#include "vh.hpp"

namespace vh {
struct Jitter {
    std::atomic<int> level{0};      // 0 off, 1 light, 2 heavy
    std::atomic<int> spurious{0};   // percent of waits which wake spuriously
    std::atomic<uint64_t> seed{1};
    std::atomic<uint64_t> delays{0},spur{0},points{0};
};
inline Jitter& jit() { static Jitter j; return j; }
#if defined(__SANITIZE_THREAD__)
#define VH_NOTSAN __attribute__((no_sanitize("thread")))
#else
#define VH_NOTSAN
#endif
inline uint64_t jrand() {
    static thread_local uint64_t s=0;
    if(!s) s=mix(jit().seed.fetch_add(0x9e3779b97f4a7c15ull,std::memory_order_relaxed))|1;
    s^=s<<13; s^=s>>7; s^=s<<17;
    return s;
}
inline void jitter() {
    const int l=jit().level.load(std::memory_order_relaxed);
    if(!l) return;
    jit().points.fetch_add(1,std::memory_order_relaxed);
    const uint64_t r=jrand()%100;
    if(r<(l>1?25u:10u)) { jit().delays.fetch_add(1,std::memory_order_relaxed); sched_yield(); }
    else if(r<(l>1?45u:14u)) {
        jit().delays.fetch_add(1,std::memory_order_relaxed);
        timespec ts{0,long(jrand()%(l>1?200000:40000))};
        nanosleep(&ts,nullptr);
    }
}
struct JitterScope {
    JitterScope(int level, int spurious, uint64_t seed) { jit().seed.store(seed,std::memory_order_relaxed); jit().spurious.store(spurious,std::memory_order_relaxed); jit().level.store(level,std::memory_order_relaxed); }
    ~JitterScope() { jit().level.store(0,std::memory_order_relaxed); jit().spurious.store(0,std::memory_order_relaxed); }
};
inline void jstats(Case& c) {
    c.stat("sync_points",jit().points.exchange(0)); c.stat("injected_delays",jit().delays.exchange(0)); c.stat("spurious_wakeups",jit().spur.exchange(0));
}
inline bool spurious() {
    const int p=jit().spurious.load(std::memory_order_relaxed);
    if(p && int(jrand()%100)<p) { jit().spur.fetch_add(1,std::memory_order_relaxed); return true; }
    return false;
}
/// waits (polling) for a condition with a generous limit; false means "stalled"
template<typename F> inline bool eventually(F f, double secs=30) {
    const auto t0=std::chrono::steady_clock::now();
    while(!f()) {
        if(std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>secs) return false;
        timespec ts{0,200000}; nanosleep(&ts,nullptr);
    }
    return true;
}
} // namespace vh

#ifdef VH_SCHED_IMPL
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_clockwait(pthread_cond_t*,pthread_mutex_t*,clockid_t,const timespec*);
int __real_pthread_cond_timedwait(pthread_cond_t*,pthread_mutex_t*,const timespec*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { vh::jitter(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { vh::jitter(); const int r=__real_pthread_mutex_unlock(m); vh::jitter(); return r; }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
    if(vh::spurious()) { __real_pthread_mutex_unlock(m); sched_yield(); __real_pthread_mutex_lock(m); return 0; }
    return __real_pthread_cond_clockwait(c,m,k,t);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
    if(vh::spurious()) { __real_pthread_mutex_unlock(m); sched_yield(); __real_pthread_mutex_lock(m); return 0; }
    return __real_pthread_cond_timedwait(c,m,t);
}
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable*,std::unique_lock<std::mutex>&);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable* c, std::unique_lock<std::mutex>& l) {
    if(vh::spurious()) { l.unlock(); sched_yield(); l.lock(); return; }
    __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c,l);
}
void __real__ZNSt18condition_variable10notify_oneEv(std::condition_variable*);
void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable* c) { vh::jitter(); __real__ZNSt18condition_variable10notify_oneEv(c); vh::jitter(); }
void __real__ZNSt18condition_variable10notify_allEv(std::condition_variable*);
void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable* c) { vh::jitter(); __real__ZNSt18condition_variable10notify_allEv(c); vh::jitter(); }
}
#endif
