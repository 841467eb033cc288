/* Environment for the queue harnesses: contracts of the libc/POSIX calls the queue reaches, written as executable stubs.
 * A queue object is obtained through the public API (open) over a region the harness controls. */
#ifndef MQ_ENV_H_
#define MQ_ENV_H_
#include "vf.h"
#include "message_queue.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <semaphore.h>
#include <time.h>
#include <cstring>

namespace env {
static uint8_t* region = nullptr;   // what mmap returns
static int64_t regionSize = 0;
static sem_t sems[8];
static int nsem = 0;
}  // namespace env

extern "C" {
int vfx_shm_open(const char*, int, mode_t) { return 7; }
int vfx_ftruncate(int, off_t) { return 0; }
int vfx_fstat(int, struct stat* st) { st->st_size = env::regionSize; return 0; }
void* vfx_mmap(void*, size_t, int, int, int, off_t) { return env::region; }
int vfx_munmap(void*, size_t) { return 0; }
int vfx_close(int) { return 0; }
int vfx_shm_unlink(const char*) { return 0; }
sem_t* vfx_sem_open(const char*, int oflag, mode_t, unsigned) {
    if ((oflag & O_EXCL) != 0) return SEM_FAILED;   // the semaphore exists
    return &env::sems[env::nsem++ & 7];
}
int vfx_sem_close(sem_t*) { return 0; }
int vfx_sem_unlink(const char*) { return 0; }
int vfx_sem_post(sem_t*) { return 0; }
int vfx_sem_wait(sem_t*) { return 0; }
int vfx_sem_trywait(sem_t*) { return 0; }
int vfx_sem_getvalue(sem_t*, int* v) { *v = 0; return 0; }
int vfx_sem_timedwait(sem_t*, const struct timespec*) { return 0; }
int vfx_clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = 1000; t->tv_nsec = 0; return 0; }
}

namespace veigar { void log(const char*, ...) {} }

/* The shared representation (documented in message_queue.cpp; it is the wire format between processes):
 *   word 0: total size   word 1: number of messages n   word 2: front free f   words 3..3+N: sizes   then N*S data bytes */
struct Rep {
    int64_t N, S, cap, total, n, f;
    uint8_t* base;
    int64_t* w;
    int64_t* sizes;
    uint8_t* data;
};

/* an arbitrary queue in a state satisfying the representation invariant */
static inline Rep arbitraryQueue(int64_t maxN, int64_t maxS, int64_t maxCap) {
    Rep r;
    r.N = vf_range("msgMaxNumber", 1, maxN);
    r.S = vf_range("msgExpectedMaxSize", 1, maxS);
    r.cap = r.N * r.S;
    vf_assume(r.cap <= maxCap);
    r.total = 8 * (r.N + 3) + r.cap;
    r.base = vf_alloc(r.total);
    r.w = (int64_t*)r.base;
    r.sizes = r.w + 3;
    r.data = r.base + 8 * (r.N + 3);
    r.n = vf_range("msgNumber", 0, r.N);
    r.f = vf_range("frontFree", 0, r.cap);
    vf_fill_bytes("dataBytes", r.data, r.cap);
    vf_fill_words("freeSizes", r.sizes, r.N, INT64_MIN, INT64_MAX);
    vf_fill_words("sizes", r.sizes, r.n, 1, r.cap);
    vf_assume(vf_sum(r.sizes, r.n) <= r.cap - r.f);
    r.w[0] = r.total;
    r.w[1] = r.n;
    r.w[2] = r.f;
    env::region = r.base;
    env::regionSize = r.total;
    return r;
}
#endif
