/* Environment of the glue harnesses: the contracts of the components below the code under proof (message queue, event, clock,
 * log, threads), as executable stubs over a ghost World.  The stubs are definitions of the real member functions; the verifier and
 * the native replay build use them instead of the bodies in /repo, which are themselves proved against the same contracts in the
 * units mq, posix and event.  In harness TUs only. */
#ifndef GLUE_ENV_H_
#define GLUE_ENV_H_
#include "thread_env.h"
#include <new>
#include <stdexcept>
#include <thread>
#include "event.h"
#include "message_queue.h"
#include "time_util.h"
#include "log.h"
#include "string_helper.h"
#include "veigar/veigar.h"

struct VfShared { int id; bool set; };

namespace g {
using namespace veigar;
struct Probe {};      // thrown to leave a thread procedure that is only identified
#ifdef VF_VERIFIER
enum { NQ = 6 };
#else
enum { NQ = 400 };
#endif
struct Queue {
    const void* p; std::string name; bool created, opened, closed, locked, removedUnderLock;
    int32_t number, size;
    int pushes, notifies;
};
struct Ghost {
    env::Threads th;
    Queue q[NQ]; int nq;
    std::string channel; uint32_t capacity, maxSize, lockMs;
    int64_t now;            // microseconds
    int throwBudget;        // allocation failures that may still happen
    bool thrown;            // ... has happened
    int threads;            // running threads
    bool threadFailed, createFailed;
    bool probing; const void* probed;
};
static Ghost* w;

static inline void initGhost(Ghost* x) {
    w = x;
    env::initThreads(&x->th);
    x->nq = 0;
    for (int i = 0; i < NQ; i++) x->q[i].p = nullptr;
    x->now = 0;
    x->throwBudget = 0;
    x->thrown = false;
    x->threads = 0;
    x->threadFailed = x->createFailed = x->probing = false;
    x->probed = nullptr;
}
static inline void configure() {
    w->channel = vf_string("own channel");
    w->capacity = (uint32_t)vf_range("capacity", 0, 0xffffffffLL);
    w->maxSize = (uint32_t)vf_range("expected size", 0, 0xffffffffLL);
    w->lockMs = (uint32_t)vf_range("lock timeout", 0, 0xffffffffLL);
    w->now = vf_range("now", 0, (int64_t)1 << 60);
}
static inline void mayThrow() {
    if (w->throwBudget > 0 && vf_bool("an allocation fails")) { w->throwBudget--; w->thrown = true; throw std::bad_alloc(); }
}
static inline Queue& of(const void* p) {
    for (int i = 0; i < w->nq; i++) if (w->q[i].p == p) return w->q[i];
    vf_assert(false, "a queue is used while it exists");
    return w->q[0];
}
static inline Queue& newQueue(const void* p, int32_t n, int32_t s) {
    vf_assert(w->nq < NQ, "model: number of queues");
    Queue& q = w->q[w->nq++];
    q.p = p; q.name.clear(); q.created = q.opened = q.closed = q.locked = q.removedUnderLock = false;
    q.number = n; q.size = s; q.pushes = q.notifies = 0;
    return q;
}
static inline void scrubQueues(int keep) {
    for (int i = keep; i < NQ; i++) {
        Queue& q = w->q[i];
        q.p = nullptr; q.name.clear(); q.created = q.opened = q.closed = q.locked = q.removedUnderLock = false;
        q.number = q.size = 0; q.pushes = q.notifies = 0;
    }
    w->nq = keep;
}
static inline bool anyQueueLocked() { for (int i = 0; i < w->nq; i++) if (w->q[i].locked) return true; return false; }
static inline std::shared_ptr<MessageQueue> makeQueue(const std::string& name) {
    std::shared_ptr<MessageQueue> m = std::make_shared<MessageQueue>(1, 1);
    Queue& q = of(m.get());
    q.name = name;
    q.opened = true;
    return m;
}

// hooks of the unit
static bool onOpen(Queue& q, const std::string& path, bool create);
static void onClose(Queue& q);
static void onLockTried(Queue& q, bool ok);
static void onUnlock(Queue& q);
static void onSpace(Queue& q, int64_t n, bool ok, bool waitable);
static void onPush(Queue& q, const void* d, int64_t n);
static void onPushed(Queue& q, bool ok);
static void onNotify(Queue& q);
static bool onWaitForRead(Queue& q, int64_t ms);
static int64_t onNumber(Queue& q);
static bool onPop(Queue& q, void* buf, int64_t n, int64_t& written);
static bool onEventWait(const void* e, int64_t ms);
static bool onEventQuery(const void* e, bool cancelled);
enum EventOp { SET, UNSET, CANCEL, UNCANCEL, RESET };
static void onEvent(const void* e, EventOp op);
static void onOutcome(int kind, const void* who, const CallResult& r);   // kind 0: promise, 1: callback
static void onThreadStart(const void* probed);
static void onJoin();
}  // namespace g

namespace veigar {
void log(const char*, ...) {}
std::string StringHelper::StringPrintf(const char*, ...) { return vf_string("formatted text"); }

MessageQueue::MessageQueue(int32_t n, int32_t s) noexcept { g::newQueue(this, n, s); }
bool MessageQueue::create(const std::string& path) {
    g::Queue& q = g::of(this);
    g::mayThrow();
    bool r = g::onOpen(q, path, true) && vf_bool("queue created");
    q.name = path;
    if (r) q.created = true; else g::w->createFailed = true;
    return r;
}
bool MessageQueue::open(const std::string& path) {
    g::Queue& q = g::of(this);
    g::mayThrow();
    bool r = g::onOpen(q, path, false) && vf_bool("queue opened");
    q.name = path;
    if (r) q.opened = true;
    return r;
}
void MessageQueue::close() {
    g::Queue& q = g::of(this);
    g::onClose(q);
    q.closed = true;
    q.created = q.opened = false;
}
bool MessageQueue::processRWLock(uint32_t ms) {
    g::Queue& q = g::of(this);
    vf_assert(q.created || q.opened, "C08/an open queue is locked");
    vf_assert(!q.locked, "C08/the lock is not acquired again by its holder");
    bool r = vf_bool("lock acquired");
    q.locked = r;
    g::onLockTried(q, r);
    return r;
}
void MessageQueue::processRWUnlock() {
    g::Queue& q = g::of(this);
    vf_assert(q.locked, "C08/only a held lock is released");
    g::onUnlock(q);
    q.locked = false;
}
bool MessageQueue::pushBack(const void* data, int64_t n) {
    g::Queue& q = g::of(this);
    vf_assert(q.locked, "C08/a message is pushed under the queue lock");
    g::onPush(q, data, n);
    bool r = vf_bool("message accepted");
    if (r) { vf_assert(q.pushes < 2, "C10/a message is pushed once"); q.pushes++; }
    g::onPushed(q, r);
    return r;
}
bool MessageQueue::popFront(void* buf, int64_t n, int64_t& written) {
    g::Queue& q = g::of(this);
    vf_assert(q.locked, "C08/a message is taken under the queue lock");
    return g::onPop(q, buf, n, written);
}
int64_t MessageQueue::msgNumber() const {
    g::Queue& q = g::of(this);
    vf_assert(q.locked, "C08/the messages are counted under the queue lock");
    return g::onNumber(q);
}
bool MessageQueue::checkSpaceSufficient(int64_t n, bool& waitable) const {
    g::Queue& q = g::of(this);
    vf_assert(q.locked, "C08/the space is queried under the queue lock");
    bool r = vf_bool("there is room");
    waitable = r || vf_bool("waiting may help");
    g::onSpace(q, n, r, waitable);
    return r;
}
bool MessageQueue::waitForRead(int64_t ms) { return g::onWaitForRead(g::of(this), ms); }
void MessageQueue::notifyRead() { g::Queue& q = g::of(this); g::onNotify(q); if (q.notifies < 3) q.notifies++; }

Event::Event(bool) noexcept {}
void Event::set() { g::onEvent(this, g::SET); }
void Event::unset() { g::onEvent(this, g::UNSET); }
void Event::cancel() { g::onEvent(this, g::CANCEL); }
void Event::unCancel() { g::onEvent(this, g::UNCANCEL); }
void Event::reset() { g::onEvent(this, g::RESET); }
bool Event::isSet() { return g::onEventQuery(this, false); }
bool Event::isCancelled() { return g::onEventQuery(this, true); }
bool Event::wait(int64_t ms) { return g::onEventWait(this, ms); }
}  // namespace veigar

extern "C" {
// what the glue asks the instance it belongs to (any instance pointer: there is one)
std::string vfx__ZNK6veigar6Veigar11channelNameB5cxx11Ev(const void*) { g::mayThrow(); return g::w->channel; }
uint32_t vfx__ZNK6veigar6Veigar16msgQueueCapacityEv(const void*) { return g::w->capacity; }
uint32_t vfx__ZNK6veigar6Veigar18expectedMsgMaxSizeEv(const void*) { return g::w->maxSize; }
uint32_t vfx__ZNK6veigar6Veigar15timeoutOfRWLockEv(const void*) { return g::w->lockMs; }
std::string* vfx__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEaSEPKc(std::string* s, const char* c) {
    g::mayThrow();
    return &s->assign(c);
}
// threads: starting one may fail; a started one is identified by running its procedure up to the first blocking call
void vfx__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread* t, std::unique_ptr<std::thread::_State>* s, void (*)()) {
    if (vf_bool("a thread cannot be started")) { g::w->threadFailed = true; throw std::runtime_error("thread"); }
    g::w->probing = true;
    g::w->probed = nullptr;
    try { (*s)->_M_run(); } catch (g::Probe&) {}
    g::w->probing = false;
    vf_assert(g::w->probed != nullptr, "C17/a started thread serves its queue or list");
    g::onThreadStart(g::w->probed);
    g::w->threads++;
    std::unique_ptr<std::thread::_State> done = std::move(*s);
    *(uint64_t*)t = 1;
}
void vfx__ZNSt6thread4joinEv(std::thread* t) {
    vf_assert(*(uint64_t*)t != 0, "only a running thread is joined");
    vf_assert(!env::holdsAny() && !g::anyQueueLocked(), "C17/no lock is held while waiting for a thread to end");
    g::onJoin();
    g::w->threads--;
    *(uint64_t*)t = 0;
}
}

namespace std {
promise<veigar::CallResult>::promise() : s(make_shared<VfShared>()) { s->id = 0; s->set = false; }
future<veigar::CallResult> promise<veigar::CallResult>::get_future() { future<veigar::CallResult> f; f.s = s; return f; }
void promise<veigar::CallResult>::set_value(veigar::CallResult&& r) {
    if (s->set) throw std::logic_error("promise already satisfied");
    s->set = true;
    g::onOutcome(0, s.get(), r);
    veigar::CallResult taken(std::move(r));
}
}
#endif
