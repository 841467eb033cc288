/* Contracts of Semaphore, SharedMemory and MessageQueue::create/open/close (C04, C05, C06) */
#include "posix_env.h"
#include "semaphore.h"
#include "shared_memory.h"
#include "message_queue.h"

using namespace veigar;

/* ---------------------------------------------------------------- C06 */

VF_HARNESS(sem_wait) {
    env::World world;
    env::init(&world);
    Semaphore s;
    bool opened = s.open("s", 3);
    vf_assume(opened);
    world.nowSec = vf_range("now seconds", 0, (int64_t)1 << 40);
    world.nowNsec = vf_range("now nanoseconds", 0, 999999999);
    world.monoSec = vf_range("monotonic seconds", 0, (int64_t)1 << 40);
    world.monoNsec = vf_range("monotonic nanoseconds", 0, 999999999);
    int64_t ms = vf_range("timeout", INT64_MIN, INT64_MAX);
    bool r = s.wait(ms);
    int64_t taken = world.n[0].taken;
    vf_assert(r == (taken == 1), "C06/success is reported exactly when a unit was taken");
    vf_assert(taken == 0 || taken == 1, "C06/at most one unit is taken");
    vf_assert(world.n[0].posted == 0, "C06/waiting posts nothing");
    if (ms < 0) {
        vf_assert(world.timedWaits == 0, "C06/a negative timeout has no deadline");
        vf_cover("sem_wait:negative");
        vf_assert(r || world.envFailed, "C06/an unlimited wait does not give up");
    } else if (world.timedWaits > 0) {
        bool mono = world.deadlineClock == CLOCK_MONOTONIC;
        int64_t s0 = mono ? world.monoSec : world.nowSec, n0 = mono ? world.monoNsec : world.nowNsec;
        int64_t q = ms / 1000, e = n0 + (ms % 1000) * 1000000;
        int64_t carry = e >= 1000000000 ? 1 : 0;
        vf_assert(world.dNsec == e - carry * 1000000000, "C06/the deadline is now + timeout (nanoseconds)");
        vf_assert(world.dSec == s0 + q + carry, "C06/the deadline is now + timeout (seconds)");
        vf_assert(world.waits == 0, "C06/a timed wait is not unlimited");
        vf_cover("sem_wait:timed");
    } else {
        vf_assert(r && world.waits == 0, "C06/a timed wait waits");
    }
    s.release();
    vf_assert(world.n[0].posted == 1 && world.n[0].taken == taken, "C06/release adds exactly one unit");
    s.close();
    vf_assert(env::openSems() == 0, "C06/close closes the semaphore");
    s.close();
    s.release();
    bool r2 = s.wait(ms);
    vf_assert(!r2 && world.n[0].posted == 1 && world.n[0].taken == taken, "C06/a closed semaphore is inert");
    vf_assert(vf_heap_live() == 0, "C06/no memory is kept after close");
    vf_cover("sem_wait:end");
}

VF_HARNESS(sem_wait_forever) {
    env::World world;
    env::init(&world);
    Semaphore s;
    s.wait();
    vf_assert(world.waits == 0 && world.timedWaits == 0, "C06/a closed semaphore is inert");
    bool opened = s.open("s", 3);
    vf_assume(opened);
    s.wait();
    int64_t taken = world.n[0].taken;
    vf_assert(world.timedWaits == 0, "C06/a wait without timeout has no deadline");
    vf_assert(taken == 0 || taken == 1, "C06/at most one unit is taken");
    vf_assert(taken == 1 || world.envFailed, "C06/an unlimited wait does not give up");
    vf_assert(world.n[0].posted == 0, "C06/waiting posts nothing");
    s.close();
    s.wait();
    vf_assert(world.n[0].taken == taken, "C06/a closed semaphore is inert");
    vf_cover("sem_wait_forever:end");
}

VF_HARNESS(sem_open) {
    env::World world;
    env::init(&world);
    std::string name = vf_string("name");
    int v = (int)vf_range("value", 0, 2147483647);
    Semaphore s;
    bool r = s.open(name, v);
    bool e = vf_str_eq(name, std::string());
    if (e) {
        vf_assert(!r, "C06/an empty name is refused");
        vf_assert(world.nn == 0, "C06/an empty name opens nothing");
        vf_cover("sem_open:empty");
    }
    vf_assert(r == s.valid(), "C06/valid after open");
    vf_assert(env::openSems() == (r ? 1 : 0), "C06/open acquires one handle or none");
    vf_assert(r || e || world.envFailed, "C06/open fails only when the system refuses");
    if (r) {
        vf_assert(vf_str_eq(world.n[0].name, name), "C06/the named semaphore is opened");
        vf_assert(world.n[0].existed || world.n[0].initial == v, "C06/a new semaphore starts with the given value");
        vf_cover("sem_open:ok");
        s.close();
        vf_assert(!s.valid(), "C06/not valid after close");
        vf_assert(world.n[0].exists, "C06/close leaves the name");
    }
    vf_assert(env::openSems() == 0, "C06/nothing stays open");
    vf_assert(vf_heap_live() == 0, "C06/no memory is kept");
    vf_cover("sem_open:end");
}

VF_HARNESS(sem_exist) {
    env::World world;
    env::init(&world);
    std::string name = vf_string("name");
    vf_assume(!vf_str_eq(name, std::string()));
    bool r = Semaphore::IsExist(name);
    vf_assert(world.nn == 0 || (world.nn == 1 && world.n[0].exists == world.n[0].existed), "C06/asking changes nothing");
    vf_assert(world.nn == 1 || world.envFailed, "C06/asking looks at the named semaphore");
    vf_assert(world.nn == 0 || vf_str_eq(world.n[0].name, name), "C06/asking looks at the named semaphore");
    vf_assert(env::openSems() == 0, "C06/asking keeps nothing open");
    vf_assert(world.envFailed || r == world.n[0].existed, "C06/the answer is truthful");
    vf_assert(world.nn == 0 || (world.n[0].taken == 0 && world.n[0].posted == 0), "C06/asking takes and posts nothing");
    vf_cover("sem_exist:end");
}

/* ---------------------------------------------------------------- C05 */
static void checkOpenShm(SharedMemory& shm, env::World& world, int64_t size, bool ok, bool wasCreate) {
    vf_assert(ok == shm.valid(), "C05/valid after a successful create or open only");
    if (ok) {
        vf_assert(env::liveMaps() == 1 && env::openFds() <= 1, "C05/one mapping is held");
        vf_assert(shm.data() != nullptr && shm.data() == world.lastRegion, "C05/data is the mapping");
        vf_assert(world.lastLen == size && shm.size() == size, "C05/exactly the requested size is mapped");
        vf_assert(world.m[world.nm - 1].whole, "C05/every mapped byte is backed by the object");
    } else {
        vf_assert(env::liveMaps() == 0 && env::openFds() == 0, "C05/a failed call holds nothing");
        vf_assert(wasCreate || env::namesOf(false, false) == env::namesOf(false, true), "C05/a failed open creates and removes nothing");
    }
}
static void checkReleased(SharedMemory& shm, env::World& world) {
    vf_assert(!shm.valid(), "C05/not valid after close");
    vf_assert(env::liveMaps() == 0 && env::openFds() == 0, "C05/close releases everything");
    vf_assert(world.opened == world.closed && world.mapped == world.unmapped, "C05/everything is released exactly once");
}

VF_HARNESS(shm_create) {
    env::World world;
    env::init(&world);
    int64_t size = vf_range("size", INT64_MIN, (int64_t)1 << 46);
    SharedMemory shm("x", size);
    bool ok = shm.create();
    checkOpenShm(shm, world, size, ok, true);
    vf_assert(ok || size <= 0 || world.envFailed, "C05/create fails only when the system refuses");
    if (ok) {
        vf_assert(size > 0, "C05/a size that cannot be mapped is refused");
        vf_assert(world.nn == 1 && world.n[0].exists, "C05/create leaves the name in place");
        vf_assert(world.n[0].size == size, "C05/the object has exactly the requested size");
        shm.data()[vf_range("index", 0, size - 1)] = 1;
        vf_cover("shm_create:ok");
    } else if (world.nn == 1) {
        vf_assert(world.n[0].existed || !world.n[0].exists, "C05/a failed create leaves no name behind");
        vf_cover("shm_create:failed");
    }
    bool existsBefore = world.nn == 1 && world.n[0].exists;
    shm.close();
    checkReleased(shm, world);
    if (world.nn == 1) {
        vf_assert(world.n[0].exists == (ok ? false : existsBefore), "C05/close removes the name exactly when this object created it");
        vf_assert(!ok || world.n[0].unlinked == 1, "C05/the creator removes the name once");
    }
    shm.close();
    checkReleased(shm, world);
    vf_cover("shm_create:end");
}

VF_HARNESS(shm_open) {
    env::World world;
    env::init(&world);
    int64_t size = vf_range("size", INT64_MIN, (int64_t)1 << 46);
    SharedMemory shm("x", size);
    bool ok = shm.open();
    checkOpenShm(shm, world, size, ok, false);
    if (ok) {
        vf_assert(size > 0, "C05/a size that cannot be mapped is refused");
        vf_assert(world.n[0].existed, "C05/only an existing object can be opened");
        vf_cover("shm_open:ok");
    } else {
        vf_assert(world.envFailed || !world.n[0].existed || world.n[0].size < size || size <= 0, "C05/opening an existing object of sufficient size succeeds");
        vf_cover("shm_open:failed");
    }
    shm.close();
    checkReleased(shm, world);
    vf_assert(world.nn == 0 || (world.n[0].exists == world.n[0].existed && world.n[0].unlinked == 0), "C05/an opener never removes or creates the name");
    shm.close();
    checkReleased(shm, world);
    vf_cover("shm_open:end");
}

/* any two lifetimes of one object, with or without a close between them */
VF_HARNESS(shm_reuse) {
    env::World world;
    env::init(&world);
    int64_t size = vf_range("size", 1, (int64_t)1 << 46);
    SharedMemory shm("x", size);
    bool c1 = vf_bool("first by create");
    bool ok1 = c1 ? shm.create() : shm.open();
    bool closeBetween = vf_bool("close in between");
    bool after = false, made1 = c1 && ok1;
    if (closeBetween) {
        shm.close();
        // another process may (re)create the name meanwhile
        if (world.nn == 1 && vf_bool("recreated by another process")) {
            vf_assume(!world.n[0].exists);
            world.n[0].exists = true;
            world.n[0].size = size;
            after = true;
        }
    }
    int ul = world.nn == 1 ? world.n[0].unlinked : 0;
    bool c2 = vf_bool("second by create");
    bool ok2 = c2 ? shm.create() : shm.open();
    vf_assert(ok2 == shm.valid(), "C05/valid after a successful create or open only");
    vf_assert(env::liveMaps() == (ok2 ? 1 : 0) && env::openFds() <= (ok2 ? 1 : 0), "C05/reuse holds one mapping or nothing");
    int ulBefore = world.nn == 1 ? world.n[0].unlinked : 0;
    shm.close();
    checkReleased(shm, world);
    if (ok2 && !c2) {
        vf_assert(world.n[0].unlinked == ulBefore, "C05/closing after open does not remove the name");
        vf_cover("shm_reuse:second open");
        if (after && made1) vf_cover("shm_reuse:reopened after create");
    }
    if (ok2 && c2) {
        vf_assert(world.n[0].unlinked == ulBefore + 1 && !world.n[0].exists, "C05/closing after create removes the name once");
        vf_cover("shm_reuse:second create");
    }
    vf_cover("shm_reuse:end");
}

/* ---------------------------------------------------------------- C04 */
static int semByInitial(env::World& world, int64_t v) {
    int c = 0;
    for (int i = 0; i < world.nn; i++) if (world.n[i].sem && world.n[i].initial == v) c++;
    return c;
}
static void checkQueueClosed(env::World& world, const char* ob) {
    vf_assert(env::liveMaps() == 0 && env::openFds() == 0 && env::openSems() == 0, ob);
}

VF_HARNESS(mq_create) {
    env::World world;
    env::init(&world);
    int64_t N = vf_range("msgMaxNumber", INT32_MIN, INT32_MAX);
    int64_t S = vf_range("msgExpectedMaxSize", INT32_MIN, INT32_MAX);
    {
        MessageQueue mq((int32_t)N, (int32_t)S);
        bool ok = mq.create("path");
        if (ok) {
            int64_t total = 8 * (N + 3) + N * S;
            vf_assert(N > 0 && S > 0, "C04/a geometry without room is refused");
            vf_assert(env::liveMaps() == 1 && env::openFds() <= 1 && env::openSems() == 2, "C04/create acquires one region and two semaphores");
            vf_assert(world.lastLen == total, "C04/the region has exactly the configured size");
            vf_assert(world.m[world.nm - 1].whole, "C04/the region is backed by the object");
            const int64_t* w = (const int64_t*)world.lastRegion;
            vf_assert(w[0] == total && w[1] == 0 && w[2] == 0, "C04/a created queue is empty");
            vf_assert(mq.msgNumber() == 0, "C04/a created queue reports no message");
            bool waitable = false;
            vf_assert(mq.checkSpaceSufficient(N * S, waitable), "C04/a created queue has its whole capacity free");
            int sems = 0;
            for (int i = 0; i < world.nn; i++) if (world.n[i].sem) sems++;
            vf_assert(sems == 2, "C04/lock and read signal are two semaphores");
            int fresh = 0;
            for (int i = 0; i < world.nn; i++) if (world.n[i].sem && !world.n[i].existed) fresh++;
            if (fresh == 2) {
                vf_assert(semByInitial(world, 1) == 1 && semByInitial(world, 0) == 1, "C04/the lock starts free and the read signal starts at zero");
                vf_cover("mq_create:fresh");
            }
            // the lock is the lock, the read signal is the read signal
            bool l = mq.processRWLock(0);
            int64_t lt = 0, rt = 0;
            for (int i = 0; i < world.nn; i++) { if (world.n[i].initial == 1) lt += world.n[i].taken; if (world.n[i].initial == 0 && world.n[i].sem) rt += world.n[i].taken; }
            if (fresh == 2) vf_assert(lt == (l ? 1 : 0) && rt == 0, "C04/the lock is the semaphore that starts at one");
            mq.notifyRead();
            int64_t rp = 0;
            for (int i = 0; i < world.nn; i++) if (world.n[i].initial == 0 && world.n[i].sem) rp += world.n[i].posted;
            if (fresh == 2) vf_assert(rp == 1, "C04/the read signal is the semaphore that starts at zero");
            vf_cover("mq_create:ok");
        } else {
            checkQueueClosed(world, "C04/a failed create holds nothing");
            vf_assert(vf_heap_live() == 0, "C04/a failed create keeps no memory");
            for (int i = 0; i < world.nn; i++)
                if (!world.n[i].sem) vf_assert(world.n[i].existed || !world.n[i].exists, "C04/a failed create leaves no region behind");
            vf_assert(world.envFailed || N <= 0 || S <= 0, "C04/create of a valid geometry fails only when the system refuses");
            vf_cover("mq_create:failed");
        }
        mq.close();
        checkQueueClosed(world, "C04/close releases everything");
        vf_assert(world.opened == world.closed && world.mapped == world.unmapped && world.semOpened == world.semClosed, "C04/everything is released exactly once");
        if (ok) for (int i = 0; i < world.nn; i++) if (!world.n[i].sem) vf_assert(!world.n[i].exists && world.n[i].unlinked == 1, "C04/the creator removes the region");
        mq.close();
    }
    vf_assert(vf_heap_live() == 0, "C04/close frees all memory");
    vf_assert(world.opened == world.closed && world.semOpened == world.semClosed, "C04/a second close releases nothing again");
    vf_cover("mq_create:end");
}

VF_HARNESS(mq_open) {
    env::World world;
    env::init(&world);
    int64_t N = vf_range("msgMaxNumber", INT32_MIN, INT32_MAX);
    int64_t S = vf_range("msgExpectedMaxSize", INT32_MIN, INT32_MAX);
    {
        MessageQueue mq((int32_t)N, (int32_t)S);
        bool ok = mq.open("path");
        int shms = 0, missing = 0, sems = 0;
        for (int i = 0; i < world.nn; i++) {
            vf_assert(world.n[i].exists == world.n[i].existed && world.n[i].unlinked == 0, "C04/opening creates and removes nothing");
            vf_assert(world.n[i].taken == 0 && world.n[i].posted == 0, "C04/opening takes and posts nothing");
            if (!world.n[i].existed) missing++;
            if (world.n[i].sem) sems++; else shms++;
        }
        if (ok) {
            vf_assert(missing == 0 && shms == 1 && sems == 2, "C04/only a complete existing queue can be opened");
            vf_assert(N > 0 && S > 0, "C04/a geometry without room is refused");
            vf_assert(env::liveMaps() == 1 && env::openFds() <= 1 && env::openSems() == 2, "C04/open acquires one region and two semaphores");
            vf_assert(world.lastLen == 8 * (N + 3) + N * S, "C04/the region has exactly the configured size");
            vf_assert(world.m[world.nm - 1].whole, "C04/the region is backed by the object");
            vf_cover("mq_open:ok");
        } else {
            checkQueueClosed(world, "C04/a failed open holds nothing");
            vf_assert(vf_heap_live() == 0, "C04/a failed open keeps no memory");
            vf_assert(world.envFailed || missing > 0 || N <= 0 || S <= 0 || world.n[0].size < 8 * (N + 3) + N * S, "C04/opening a complete queue fails only when the system refuses");
            vf_cover("mq_open:failed");
        }
        mq.close();
        checkQueueClosed(world, "C04/close releases everything");
        for (int i = 0; i < world.nn; i++) vf_assert(world.n[i].exists == world.n[i].existed && world.n[i].unlinked == 0, "C04/closing an opened queue leaves its names");
        mq.close();
        vf_assert(world.opened == world.closed && world.mapped == world.unmapped && world.semOpened == world.semClosed, "C04/everything is released exactly once");
    }
    vf_assert(vf_heap_live() == 0, "C04/close frees all memory");
    vf_cover("mq_open:end");
}

/* opening never writes: the content seen after the open is the content another process left there */
VF_HARNESS(mq_open_content) {
    env::World world;
    env::init(&world);
    int64_t N = vf_range("msgMaxNumber", 1, INT32_MAX);
    int64_t S = vf_range("msgExpectedMaxSize", 1, INT32_MAX);
    vf_assume(N * S <= ((int64_t)1 << 46));
    MessageQueue mq((int32_t)N, (int32_t)S);
    world.keepContent = true;
    bool ok = mq.open("path");
    if (ok) {
        int64_t k = vf_range("index", 0, world.lastLen - 1);
        vf_assert(world.lastRegion[k] == world.content[k], "C04/opening never modifies the content");
        vf_cover("mq_open_content:ok");
    }
    mq.close();
}

/* ---------------------------------------------------------------- C08, C09: the lock and the read signal of a queue
 * One process creates the queue, another one opens it; then either of them takes or returns the lock, waits for the read signal or posts it. */
namespace sync_ {
static int64_t taken(int i) { return env::w->n[i].taken; }
static int64_t posted(int i) { return env::w->n[i].posted; }
// the one semaphore of which units were taken (or posted) since the totals were `before`
struct Totals { int64_t taken[env::NN], posted[env::NN]; int nn; };
static void totals(Totals& t) { t.nn = env::w->nn; for (int i = 0; i < t.nn; i++) { t.taken[i] = taken(i); t.posted[i] = posted(i); } }
static int64_t sumTaken(const Totals& t) { int64_t r = 0; for (int i = 0; i < t.nn; i++) r += taken(i) - t.taken[i]; return r; }
static int64_t sumPosted(const Totals& t) { int64_t r = 0; for (int i = 0; i < t.nn; i++) r += posted(i) - t.posted[i]; return r; }
}

VF_HARNESS(mq_sync) {
    using namespace sync_;
    env::World world;
    env::init(&world);
    std::string path = vf_string("path");
    MessageQueue a(2, 64), b(2, 64);
    vf_assume(a.create(path));
    vf_assume(b.open(path));
    vf_assume(!world.envFailed);
    int lock = -1, signal = -1, sems = 0;
    for (int i = 0; i < world.nn; i++) {
        if (!world.n[i].sem) continue;
        sems++;
        vf_assume(!world.n[i].existed);
        if (world.n[i].initial == 1) lock = i; else signal = i;
    }
    vf_assert(sems == 2 && lock >= 0 && signal >= 0, "C08,C09/creator and opener of a queue share one lock and one read signal");
    world.nowSec = vf_range("now seconds", 0, (int64_t)1 << 40);
    world.nowNsec = vf_range("now nanoseconds", 0, 999999999);
    Totals t;
    totals(t);
    MessageQueue& q = vf_bool("by the opener") ? b : a;
    int op = (int)vf_range("operation", 0, 3);
    if (op == 0) {
        uint32_t ms = (uint32_t)vf_range("lock timeout", 0, UINT32_MAX);
        bool r = q.processRWLock(ms);
        vf_assert(taken(lock) - t.taken[lock] == (r ? 1 : 0) && sumTaken(t) == (r ? 1 : 0), "C08/the lock is reported as acquired exactly when it was");
        vf_assert(sumPosted(t) == 0, "C08/acquiring releases nothing");
        vf_assert(world.waits == 0, "C08,C16/waiting for the lock is limited");
        if (world.timedWaits > 0) {
            int64_t e = world.nowNsec + (int64_t)(ms % 1000) * 1000000, carry = e >= 1000000000 ? 1 : 0;
            if (world.deadlineClock != CLOCK_MONOTONIC)
                vf_assert(world.dNsec == e - carry * 1000000000 && world.dSec == world.nowSec + ms / 1000 + carry, "C08,C16/the lock is given up at the lock timeout");
            vf_cover("mq_sync:timed");
        }
        if (r) vf_cover("mq_sync:locked"); else vf_cover("mq_sync:not locked");
    } else if (op == 1) {
        q.processRWUnlock();
        vf_assert(posted(lock) - t.posted[lock] == 1 && sumPosted(t) == 1 && sumTaken(t) == 0, "C08/releasing gives the lock back once");
        vf_cover("mq_sync:unlocked");
    } else if (op == 2) {
        int64_t ms = vf_range("timeout", INT64_MIN, INT64_MAX);
        bool r = q.waitForRead(ms);
        vf_assert(taken(signal) - t.taken[signal] == (r ? 1 : 0) && sumTaken(t) == (r ? 1 : 0) && sumPosted(t) == 0, "C09/a read signal is consumed exactly when the wait reports one");
        if (r) vf_cover("mq_sync:signal");
    } else {
        q.notifyRead();
        vf_assert(posted(signal) - t.posted[signal] == 1 && sumPosted(t) == 1 && sumTaken(t) == 0, "C09/one read signal is posted");
        vf_cover("mq_sync:notified");
    }
}

/* a queue that is not open has no lock and no signal */
VF_HARNESS(mq_sync_closed) {
    env::World world;
    env::init(&world);
    MessageQueue q((int32_t)vf_range("msgMaxNumber", INT32_MIN, INT32_MAX), (int32_t)vf_range("msgExpectedMaxSize", INT32_MIN, INT32_MAX));
    if (vf_bool("failed open before")) vf_assume(!q.open("path"));
    sync_::Totals t;
    sync_::totals(t);
    vf_assert(!q.processRWLock((uint32_t)vf_range("lock timeout", 0, UINT32_MAX)), "C08/a closed queue cannot be locked");
    vf_assert(!q.waitForRead(vf_range("timeout", INT64_MIN, INT64_MAX)), "C09/a closed queue has no signal");
    q.notifyRead();
    vf_assert(world.waits == 0 && world.timedWaits == 0 && world.tryWaits == 0 && sync_::sumTaken(t) == 0 && sync_::sumPosted(t) == 0, "C08,C09/a closed queue waits for nothing and signals nothing");
    vf_cover("mq_sync_closed:end");
}

/* two queues have nothing in common */
VF_HARNESS(mq_sync_two) {
    env::World world;
    env::init(&world);
    std::string p1 = vf_string("path"), p2 = vf_string("other path");
    vf_assume(!vf_str_eq(p1, p2));
    MessageQueue a(2, 64), b(2, 64);
    vf_assume(a.create(p1));
    int n1 = world.nn;
    vf_assume(b.create(p2));
    vf_assume(!world.envFailed);
    vf_assert(world.nn == 2 * n1, "C04,C08,C09/queues of different names share nothing");
    vf_cover("mq_sync_two:end");
}
