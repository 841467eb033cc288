/* Contracts of the POSIX calls, as executable stubs over a ghost world: names with an existence bit (arbitrary before the
 * code under test runs), descriptors, mappings and semaphore handles.  Every call may fail where POSIX lets it fail.
 * Misuse (closing what is not open, unmapping something else than what was mapped, ...) is a failed obligation. */
#ifndef POSIX_ENV_H_
#define POSIX_ENV_H_
#include "vf.h"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#ifndef ENV_PROP
#define ENV_PROP "C04C05C06"
#endif

namespace env {
enum { NN = 8, NF = 4, NM = 4, NS = 8 };
struct Name {
    std::string name;
    bool sem;
    bool existed;    // before the code under test ran
    bool exists;
    int64_t size;    // shm: bytes
    int64_t initial; // semaphore: initial value given when it was created here, -1 if it existed
    int unlinked;
    int64_t taken, posted;
};
struct Fd { bool open; int name; };
struct Map { bool live; void* addr; int64_t len; int name; bool whole; };
struct Sem { bool open; int name; sem_t* h; };
struct World {
    Name n[NN]; int nn;
    Fd f[NF]; int nf;
    Map m[NM]; int nm;
    Sem s[NS]; int ns;
    bool envFailed;       // some call failed for a reason outside the program's control
    int fd0;              // the lowest descriptor that is free
    int opened, closed, mapped, unmapped, semOpened, semClosed;
    // semaphore waits
    int waits, timedWaits, tryWaits;
    bool waitOk;
    int64_t nowSec, nowNsec;       // the realtime clock (arbitrary, does not move during one call)
    int64_t monoSec, monoNsec;
    bool deadlineSet; int deadlineClock;
    int64_t dSec, dNsec;
    sem_t sems[NS];
    uint8_t* lastRegion; int64_t lastLen;
    bool keepContent; uint8_t* content;
};
static World* w;

static inline void init(World* x) {
    w = x;
    w->nn = w->nf = w->nm = w->ns = 0;
    w->envFailed = false;
    w->fd0 = vf_bool("descriptor 0 is free") ? 0 : 100;
    w->opened = w->closed = w->mapped = w->unmapped = w->semOpened = w->semClosed = 0;
    w->waits = w->timedWaits = w->tryWaits = 0;
    w->waitOk = false; w->deadlineSet = false; w->deadlineClock = -1;
    w->dSec = w->dNsec = 0;
    w->nowSec = w->nowNsec = w->monoSec = w->monoNsec = 0;
    w->lastRegion = nullptr; w->lastLen = 0; w->keepContent = false; w->content = nullptr;
}
static inline int find(const char* nm, bool sem) {
    std::string s(nm);
    for (int i = 0; i < w->nn; i++)
        if (w->n[i].sem == sem && vf_str_eq(w->n[i].name, s)) return i;
    vf_assume(w->nn < NN);
    int i = w->nn++;
    Name& x = w->n[i];
    x.name = s;
    x.sem = sem;
    x.existed = x.exists = vf_bool(sem ? "semaphore already exists" : "shared memory already exists");
    x.size = (!sem && x.existed) ? vf_range("size of the existing object", 0, (int64_t)1 << 46) : 0;
    x.initial = -1;
    x.unlinked = 0;
    x.taken = x.posted = 0;
    return i;
}
static inline int openFds() { int c = 0; for (int i = 0; i < w->nf; i++) c += w->f[i].open ? 1 : 0; return c; }
static inline int liveMaps() { int c = 0; for (int i = 0; i < w->nm; i++) c += w->m[i].live ? 1 : 0; return c; }
static inline int openSems() { int c = 0; for (int i = 0; i < w->ns; i++) c += w->s[i].open ? 1 : 0; return c; }
static inline int namesOf(bool sem, bool before) {
    int c = 0;
    for (int i = 0; i < w->nn; i++) if (w->n[i].sem == sem && (before ? w->n[i].existed : w->n[i].exists)) c++;
    return c;
}
static inline bool fails(const char* what) { bool b = vf_bool(what); if (b) w->envFailed = true; return b; }
static inline int semIndex(sem_t* h) { for (int i = 0; i < w->ns; i++) if (w->s[i].h == h) return i; return -1; }
}  // namespace env

extern "C" {
int vfx_shm_open(const char* name, int oflag, mode_t) {
    int i = env::find(name, false);
    env::Name& n = env::w->n[i];
    if (env::fails("shm_open fails")) { errno = EMFILE; return -1; }
    if (!n.exists && (oflag & O_CREAT) == 0) { errno = ENOENT; return -1; }
    if (n.exists && (oflag & O_CREAT) != 0 && (oflag & O_EXCL) != 0) { errno = EEXIST; return -1; }
    if (!n.exists) { n.exists = true; n.size = 0; }
    if ((oflag & O_TRUNC) != 0) n.size = 0;
    vf_assert((oflag & O_ACCMODE) == O_RDWR, ENV_PROP "/the object is opened for reading and writing");
    vf_assume(env::w->nf < env::NF);
    int f = env::w->nf++;
    env::w->f[f].open = true;
    env::w->f[f].name = i;
    env::w->opened++;
    return f + env::w->fd0;
}
static int env_fd(int fd, const char* ob) {
    int k = fd - env::w->fd0;
    bool ok = k >= 0 && k < env::w->nf && env::w->f[k].open;
    vf_assert(ok, ob);
    return k;
}
int vfx_ftruncate(int fd, off_t len) {
    int f = env_fd(fd, ENV_PROP "/ftruncate: the descriptor is open");
    if (len < 0) { errno = EINVAL; return -1; }
    if (env::fails("ftruncate fails")) { errno = EFBIG; return -1; }
    env::w->n[env::w->f[f].name].size = len;
    return 0;
}
int vfx_fstat(int fd, struct stat* st) {
    int f = env_fd(fd, ENV_PROP "/fstat: the descriptor is open");
    if (env::fails("fstat fails")) { errno = EOVERFLOW; return -1; }
    st->st_size = env::w->n[env::w->f[f].name].size;
    return 0;
}
void* vfx_mmap(void*, size_t len, int prot, int flags, int fd, off_t off) {
    int f = env_fd(fd, ENV_PROP "/mmap: the descriptor is open");
    env::Name& n = env::w->n[env::w->f[f].name];
    if (len == 0 || (int64_t)len < 0) { errno = EINVAL; return MAP_FAILED; }
    if (env::fails("mmap fails")) { errno = ENOMEM; return MAP_FAILED; }
    vf_assume(env::w->nm < env::NM);
    vf_assert((prot & (PROT_READ | PROT_WRITE)) == (PROT_READ | PROT_WRITE), "C05/the mapping is readable and writable");
    vf_assert((flags & MAP_SHARED) != 0, "C05/the mapping is shared");
    vf_assert(off == 0, "C05/the mapping starts at the start of the object");
    env::Map& m = env::w->m[env::w->nm++];
    m.live = true;
    m.len = (int64_t)len;
    m.name = env::w->f[f].name;
    m.whole = (int64_t)len <= n.size;
    m.addr = vf_alloc((int64_t)len);
    env::w->mapped++;
    env::w->lastRegion = (uint8_t*)m.addr;
    env::w->lastLen = m.len;
    if (env::w->keepContent) {
        vf_fill_bytes("content", m.addr, m.len);
        env::w->content = (uint8_t*)vf_snapshot(m.addr, m.len);
    }
    return m.addr;
}
int vfx_munmap(void* addr, size_t len) {
    int k = -1;
    for (int i = 0; i < env::w->nm; i++) if (env::w->m[i].live && env::w->m[i].addr == addr) k = i;
    vf_assert(k >= 0, ENV_PROP "/munmap: the address is a live mapping");
    vf_assert(env::w->m[k].len == (int64_t)len, ENV_PROP "/munmap: the whole mapping is removed");
    env::w->m[k].live = false;
    env::w->unmapped++;
    return 0;
}
int vfx_close(int fd) {
    int f = env_fd(fd, ENV_PROP "/close: the descriptor is open");
    env::w->f[f].open = false;
    env::w->closed++;
    return 0;
}
int vfx_shm_unlink(const char* name) {
    int i = env::find(name, false);
    env::Name& n = env::w->n[i];
    if (!n.exists) { errno = ENOENT; return -1; }
    n.exists = false;
    n.unlinked++;
    return 0;
}
sem_t* vfx_sem_open(const char* name, int oflag, mode_t mode, unsigned value) {
    int i = env::find(name, true);
    env::Name& n = env::w->n[i];
    if (n.exists && (oflag & O_CREAT) != 0 && (oflag & O_EXCL) != 0) { errno = EEXIST; return SEM_FAILED; }
    if (!n.exists && (oflag & O_CREAT) == 0) { errno = ENOENT; return SEM_FAILED; }
    if (env::fails("sem_open fails")) { errno = EMFILE; return SEM_FAILED; }
    if (!n.exists) { n.exists = true; n.initial = (int64_t)value; }
    vf_assume(env::w->ns < env::NS);
    int k = env::w->ns++;
    env::w->s[k].open = true;
    env::w->s[k].name = i;
    env::w->s[k].h = &env::w->sems[k];
    env::w->semOpened++;
    return env::w->s[k].h;
}
static int env_sem(sem_t* h, const char* ob) {
    int k = env::semIndex(h);
    vf_assert(k >= 0, ob);
    vf_assert(env::w->s[k].open, ob);
    return k;
}
int vfx_sem_close(sem_t* h) {
    int k = env_sem(h, ENV_PROP "/sem_close: the semaphore is open");
    env::w->s[k].open = false;
    env::w->semClosed++;
    return 0;
}
int vfx_sem_unlink(const char* name) {
    int i = env::find(name, true);
    env::Name& n = env::w->n[i];
    if (!n.exists) { errno = ENOENT; return -1; }
    n.exists = false;
    n.unlinked++;
    return 0;
}
int vfx_sem_post(sem_t* h) {
    int k = env_sem(h, ENV_PROP "/sem_post: the semaphore is open");
    env::w->n[env::w->s[k].name].posted++;
    return 0;
}
int vfx_sem_wait(sem_t* h) {
    int k = env_sem(h, ENV_PROP "/sem_wait: the semaphore is open");
    env::w->waits++;
    if (env::fails("sem_wait is interrupted")) { errno = EINTR; return -1; }
    env::w->n[env::w->s[k].name].taken++;
    return 0;
}
int vfx_sem_trywait(sem_t* h) {
    int k = env_sem(h, ENV_PROP "/sem_trywait: the semaphore is open");
    env::w->tryWaits++;
    if (vf_bool("semaphore is zero")) { errno = EAGAIN; return -1; }
    env::w->n[env::w->s[k].name].taken++;
    return 0;
}
int vfx_sem_getvalue(sem_t* h, int* v) {
    env_sem(h, ENV_PROP "/sem_getvalue: the semaphore is open");
    *v = (int)vf_range("semaphore value", 0, 2147483647);
    return 0;
}
static int env_timed(sem_t* h, int clock, const struct timespec* ts) {
    int k = env_sem(h, ENV_PROP "/sem_timedwait: the semaphore is open");
    env::w->timedWaits++;
    env::w->deadlineSet = true;
    env::w->deadlineClock = clock;
    env::w->dSec = ts->tv_sec;
    env::w->dNsec = ts->tv_nsec;
    vf_assert(ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000, "C06/the deadline is a valid absolute time");
    int r = (int)vf_range("outcome of the timed wait (0 taken, 1 timed out, 2 interrupted)", 0, 2);
    if (r == 0) { env::w->n[env::w->s[k].name].taken++; return 0; }
    if (r == 2) { env::w->envFailed = true; errno = EINTR; } else errno = ETIMEDOUT;
    return -1;
}
int vfx_sem_timedwait(sem_t* h, const struct timespec* ts) { return env_timed(h, CLOCK_REALTIME, ts); }
int vfx_sem_clockwait(sem_t* h, clockid_t c, const struct timespec* ts) { return env_timed(h, c, ts); }
int vfx_clock_gettime(clockid_t c, struct timespec* t) {
    t->tv_sec = c == CLOCK_MONOTONIC ? env::w->monoSec : env::w->nowSec;
    t->tv_nsec = c == CLOCK_MONOTONIC ? env::w->monoNsec : env::w->nowNsec;
    return 0;
}
}
namespace veigar { void log(const char*, ...) {} }
#endif
