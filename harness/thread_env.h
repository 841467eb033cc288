/* Contracts of the threading primitives below libstdc++ (pthread mutexes, condition variables, clocks), as executable stubs.
 * Ghost state: which mutexes this thread holds, how often each was locked, the clock.  While a mutex is not held, other
 * threads may change what it protects: a harness registers that with env::onAcquire / env::onRelease. */
#ifndef THREAD_ENV_H_
#define THREAD_ENV_H_
#include "vf.h"
#include <pthread.h>
#include <cerrno>
#include <time.h>
#include <condition_variable>
#include <mutex>
#include <chrono>

extern "C" { int vf_real_lock(void*); int vf_real_unlock(void*); }
namespace env {
enum { NMX = 16 };
struct Threads {
    const void* mx[NMX]; bool held[NMX]; int nmx;
    bool notifyAll, notifyOne, condWaits, timedCondWaits;
    int64_t monoNs, realNs;          // the clocks, in nanoseconds; they move only while the thread waits
    bool deadlineSet; int64_t deadlineNs; int deadlineClock;
    void (*onAcquire)(const void*);
    void (*onRelease)(const void*);
    void (*onWait)();
};
static Threads* t;
#ifndef VF_VERIFIER
static bool real;                    // native stress: several threads really run
#define VF_REAL(x) if (env::real) return x
#else
#define VF_REAL(x)
#endif
static inline void initThreads(Threads* x) {
    t = x;
    t->nmx = 0;
    t->notifyAll = t->notifyOne = t->condWaits = t->timedCondWaits = false;
    t->monoNs = t->realNs = 0;
    t->deadlineSet = false; t->deadlineNs = 0; t->deadlineClock = -1;
    t->onAcquire = t->onRelease = nullptr;
    t->onWait = nullptr;
}
static inline int mutexIndex(const void* m) {
    for (int i = 0; i < t->nmx; i++) if (t->mx[i] == m) return i;
    vf_assume(t->nmx < NMX);
    int i = t->nmx++;
    t->mx[i] = m; t->held[i] = false;
    return i;
}
static inline bool holds(const void* m) { return t->held[mutexIndex(m)]; }
static inline bool holdsAny() { for (int i = 0; i < t->nmx; i++) if (t->held[i]) return true; return false; }
static inline void advance() {
    // the clocks stay below 2^62 ns (146 years)
    vf_assume(t->monoNs <= ((int64_t)1 << 62) && t->realNs <= ((int64_t)1 << 62));
    int64_t d = vf_range("time passes (ns)", 0, (int64_t)1 << 62);
    vf_assume(d <= ((int64_t)1 << 62) - t->monoNs && d <= ((int64_t)1 << 62) - t->realNs);
    t->monoNs += d;
    t->realNs += d;
}
}  // namespace env

extern "C" {
int vfx_pthread_mutex_lock(pthread_mutex_t* m) {
    VF_REAL(vf_real_lock(m));
    int i = env::mutexIndex(m);
    vf_assert(!env::t->held[i], "a mutex is not locked again by its holder");
    env::t->held[i] = true;
   
    if (env::t->onAcquire) env::t->onAcquire(m);
    return 0;
}
int vfx_pthread_mutex_trylock(pthread_mutex_t* m) {
    int i = env::mutexIndex(m);
    if (vf_bool("mutex is taken")) return EBUSY;
    vf_assert(!env::t->held[i], "a mutex is not locked again by its holder");
    env::t->held[i] = true;
   
    if (env::t->onAcquire) env::t->onAcquire(m);
    return 0;
}
int vfx_pthread_mutex_unlock(pthread_mutex_t* m) {
    VF_REAL(vf_real_unlock(m));
    int i = env::mutexIndex(m);
    vf_assert(env::t->held[i], "only a held mutex is unlocked");
    if (env::t->onRelease) env::t->onRelease(m);
    env::t->held[i] = false;
    return 0;
}
static void env_condrelease(pthread_mutex_t* m) {
    int i = env::mutexIndex(m);
    vf_assert(env::t->held[i], "a condition wait holds its mutex");
    if (env::t->onWait) env::t->onWait();
    if (env::t->onRelease) env::t->onRelease(m);
    env::t->held[i] = false;
    env::advance();
    env::t->held[i] = true;
   
    if (env::t->onAcquire) env::t->onAcquire(m);
}
int vfx_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m) {
    env::t->condWaits = true;
    env_condrelease(m);
    return 0;
}
int vfx_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
    env::t->timedCondWaits = true;
    vf_assert(ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000, "a condition deadline is a valid absolute time");
    env::t->deadlineSet = true;
    env::t->deadlineClock = c;
    env::t->deadlineNs = ts->tv_sec * 1000000000 + ts->tv_nsec;
    env_condrelease(m);
    int64_t now = c == CLOCK_MONOTONIC ? env::t->monoNs : env::t->realNs;
    if (now >= env::t->deadlineNs && vf_bool("the wait times out")) return ETIMEDOUT;
    return 0;
}
int vfx_pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const struct timespec* ts) {
    return vfx_pthread_cond_clockwait(cv, m, CLOCK_REALTIME, ts);
}
void vfx__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable*, std::unique_lock<std::mutex>* ul) {
    vfx_pthread_cond_wait(nullptr, ul->mutex()->native_handle());
}
void vfx__ZNSt18condition_variable10notify_allEv(std::condition_variable*) { env::t->notifyAll = true; }
void vfx__ZNSt18condition_variable10notify_oneEv(std::condition_variable*) { env::t->notifyOne = true; }
void vfx__ZNSt18condition_variableC1Ev(std::condition_variable*) {}
void vfx__ZNSt18condition_variableD1Ev(std::condition_variable*) {}
void vfx__ZNSt18condition_variableC2Ev(std::condition_variable*) {}
void vfx__ZNSt18condition_variableD2Ev(std::condition_variable*) {}
int64_t vfx__ZNSt6chrono3_V212steady_clock3nowEv() { return env::t->monoNs; }
int64_t vfx__ZNSt6chrono3_V212system_clock3nowEv() { return env::t->realNs; }
}
#endif
