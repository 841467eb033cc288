/* Contracts of Event (C07).  Other threads may change the state whenever the event's lock is not held. */
#include "thread_env.h"
#include "event.h"
using namespace veigar;

static Event* ev;
static bool lastSet, lastCan;      // state when the lock was last released (or initially)
static bool accSet, accCan;        // state when the lock was last acquired
static int64_t acquired;
static bool changed;               // this thread changed the state

static env::Threads* th;

static void acquire(const void*) {
    th->notifyAll = false;         // who waits later does not see an earlier wake-up
    vf_assert(ev->isSet_ == lastSet && ev->isCancelled_ == lastCan, "C07/the state changes only under the lock");
    ev->isSet_ = vf_bool("another thread set it");
    ev->isCancelled_ = vf_bool("another thread cancelled it");
    accSet = ev->isSet_;
    accCan = ev->isCancelled_;
    if (acquired < 2) acquired++;
}
static void release(const void*) {
    lastSet = ev->isSet_;
    lastCan = ev->isCancelled_;
    if (lastSet != accSet || lastCan != accCan) changed = true;
}
static void sleeps() {
    vf_assert(!ev->isSet_ && !ev->isCancelled_, "C07/a wait does not sleep while the event is set or cancelled");
}
static void begin(Event* e, env::Threads* t) {
    env::initThreads(t);
    ev = e;
    th = t;
    t->onWait = sleeps;
    t->onAcquire = acquire;
    t->onRelease = release;
    e->isSet_ = vf_bool("initially set");
    e->isCancelled_ = vf_bool("initially cancelled");
    lastSet = e->isSet_;
    lastCan = e->isCancelled_;
    acquired = 0;
    changed = false;
}
static void finish() {
    vf_assert(!env::holdsAny(), "C07/the lock is released");
    vf_assert(ev->isSet_ == lastSet && ev->isCancelled_ == lastCan, "C07/the state changes only under the lock");
}

VF_HARNESS(ev_ops) {
    env::Threads t;
    Event e(false);
    vf_assert(!e.isSet_ && !e.isCancelled_, "C07/a new event is neither set nor cancelled");
    begin(&e, &t);
    int op = (int)vf_range("operation", 0, 4);
    if (op == 0) e.set();
    else if (op == 1) e.unset();
    else if (op == 2) e.cancel();
    else if (op == 3) e.unCancel();
    else e.reset();
    finish();
    vf_assert(acquired == 1, "C07/the operation is one critical section");
    vf_assert(lastSet == (op == 0 ? true : (op == 1 || op == 4) ? false : accSet), "C07/exactly the named state changes (set)");
    vf_assert(lastCan == (op == 2 ? true : (op == 3 || op == 4) ? false : accCan), "C07/exactly the named state changes (cancelled)");
    vf_assert(!changed || op == 1 || op == 3 || op == 4 || t.notifyAll, "C07/a change wakes all waiters");
    vf_assert(t.condWaits == false && t.timedCondWaits == false, "C07/the operation does not wait");
    vf_cover("ev_ops:end");
}

VF_HARNESS(ev_ctor) {
    env::Threads t;
    env::initThreads(&t);
    bool b = vf_bool("initially");
    Event e(b);
    vf_assert(e.isSet() == b && !e.isCancelled(), "C07/a new event has the given state");
    vf_cover("ev_ctor:end");
}

VF_HARNESS(ev_query) {
    env::Threads t;
    Event e(false);
    begin(&e, &t);
    bool c = vf_bool("ask for cancelled");
    bool r = c ? e.isCancelled() : e.isSet();
    finish();
    vf_assert(acquired == 1, "C07/the state is read under the lock");
    vf_assert(r == (c ? lastCan : lastSet), "C07/the state is reported truthfully");
    vf_assert(!changed, "C07/asking changes nothing");
    vf_cover("ev_query:end");
}

VF_HARNESS(ev_wait) {
    env::Threads t;
    Event e(false);
    begin(&e, &t);
    t.monoNs = vf_range("monotonic clock", 0, (int64_t)1 << 60);
    t.realNs = vf_range("realtime clock", 0, (int64_t)1 << 60);
    const int64_t m0 = t.monoNs;
    int64_t ms = vf_range("timeout", INT64_MIN, (int64_t)1 << 41);
    bool r = e.wait(ms);
    finish();
    vf_assert(!changed, "C07/waiting changes nothing");
    vf_assert(acquired >= 1, "C07/the state is read under the lock");
    vf_assert(r == (lastSet || lastCan), "C07/wait returns whether the event is set or cancelled");
    if (ms < 0) {
        vf_assert(r, "C07/an unlimited wait does not give up");
        vf_assert(t.timedCondWaits == false, "C07/a negative timeout waits without limit");
        vf_cover("ev_wait:unlimited");
    } else {
        vf_assert(t.condWaits == false, "C07/a limited wait is limited");
        vf_assert(r || t.monoNs - m0 >= ms * 1000000, "C07/wait never returns early with false");
        if (t.deadlineSet) {
            vf_assert(t.deadlineClock == CLOCK_MONOTONIC, "C07/the limit does not depend on the settable clock");
            vf_assert(t.deadlineNs == m0 + ms * 1000000, "C07/the limit is the requested time");
            vf_cover("ev_wait:timed");
        }
        vf_cover("ev_wait:limited");
    }
    vf_cover("ev_wait:end");
}
