/* Contracts of Sender: its two thread procedures, the hand-over lists, the target queues, start and stop. */
#include "glue_env.h"
#include "sender.h"
using namespace veigar;

namespace g {
// ---- ghost state of the element being processed
struct Elem { std::string channel, callId; int8_t meta; const void* who; bool cb; uint8_t* data; int64_t n, start, timeout; };
struct Work {
    Sender* s;
    int mode;                 // 0: the call thread, 1: the response thread, 2: uninit, 3: other
    Elem next;                // front of the list
    bool cur; Elem e;         // the element taken from the list
    int64_t k; uint8_t kth;   // an arbitrary payload byte
    int outcomes; bool timeoutSeen, noQueue, lockFailed, refused, stop, neverFit, paused, waited, spaceAsked;
    bool registered, released;
    int pushed; Queue* pushedTo;
    bool set, setCall, setResp;  int added; Elem addedE;
    bool stopSet, callCancelled, respCancelled;
    bool recipients, drained[2], mapCleared[2]; int callThreads, respThreads; bool stale, stopSeen;
    int base;                 // queues that always exist
};
static Work* x;
#ifdef VF_VERIFIER
#define VF_BIG ((int64_t)1 << 46)
#else
#define VF_BIG ((int64_t)1 << 16)
#endif

static void clearWork() {
    x->cur = false;
    x->outcomes = 0; x->pushed = 0; x->pushedTo = nullptr;
    x->timeoutSeen = x->noQueue = x->lockFailed = x->refused = x->stop = x->neverFit = x->paused = x->waited = x->spaceAsked = false;
    x->registered = x->released = false;
    w->throwBudget = 0; w->thrown = false;
}
static bool isCall() { return x->mode != 1; }
}  // namespace g
using g::x;
using g::w;

// ---- list of pending elements
template <class T> static void element(T& out) {
    int64_t n = vf_range("payload size", 0, VF_BIG);
    out.channel = vf_string("target channel");
    out.data = (uint8_t*)malloc(n);
    vf_assume(out.data != nullptr);   // (the library never lists an element without payload memory)
    out.dataSize = n;
    vf_fill_bytes("payload", out.data, n);
    out.startCallTimePoint = vf_range("call time", 0, (int64_t)1 << 60);
    vf_assume(out.startCallTimePoint <= w->now);
    out.timeout = vf_range("call timeout (ms)", 0, 0xffffffffLL) * 1000;
    g::Elem& e = x->next;
    e.channel = out.channel; e.data = out.data; e.n = n; e.start = out.startCallTimePoint; e.timeout = out.timeout;
    x->k = 0; x->kth = 0;
    if (n > 0) { x->k = vf_range("byte", 0, VF_BIG - 1); vf_assume(x->k < n); x->kth = out.data[x->k]; }
}
static void nextElement();
static void taken(g::Elem& e) {
    nextElement();
    vf_assert(!x->cur, "C10,C12/an element is finished before the next one is taken");
    x->cur = true;
    x->e = e;
    if (x->mode < 2) w->throwBudget = 1;
}
template <> bool vfq<Sender::CallMeta>::more(const void*) { vf_assert(env::holds(&x->s->callListMutex_), "C10/the call list is used under its lock"); bool r = x->mode != 4 && vf_bool("a call is waiting"); x->drained[0] = !r; if (!r && x->mode == 0) x->stale = false; return r; }
template <> void vfq<Sender::CallMeta>::arbitrary(const void*, Sender::CallMeta& c) {
    vf_assert(env::holds(&x->s->callListMutex_), "C10/the call list is used under its lock");
    element(c);
    c.callId = vf_string("call id");
    c.resultMeta.metaType = (int8_t)vf_range("meta type", 0, 1);
    x->next.cb = false;
    x->next.who = nullptr;
    // a call has a promise or a callback; nothing else about it is looked at before its outcome is delivered
    if (x->recipients) {
        c.resultMeta.p = std::make_shared<std::promise<CallResult>>();
        x->next.who = c.resultMeta.p->s.get();
        c.resultMeta.cb = [](const CallResult& r) { g::onOutcome(1, nullptr, r); };
        x->next.cb = true;
    }
    x->next.callId = c.callId;
    x->next.meta = c.resultMeta.metaType;
}
template <> void vfq<Sender::CallMeta>::popped(const void*, Sender::CallMeta& c) {
    vf_assert(env::holds(&x->s->callListMutex_), "C10/the call list is used under its lock");
    taken(x->next);
}
template <> void vfq<Sender::CallMeta>::pushed(const void*, const Sender::CallMeta& c) {
    vf_assert(env::holds(&x->s->callListMutex_), "C10/the call list is used under its lock");
    vf_assert(x->added == 0, "C10,C12/an element is handed over once");
    x->added++;
    x->addedE.channel = c.channel; x->addedE.callId = c.callId; x->addedE.meta = c.resultMeta.metaType;
    x->addedE.who = c.resultMeta.p ? c.resultMeta.p->s.get() : nullptr; x->addedE.cb = (bool)c.resultMeta.cb;
    x->addedE.data = c.data; x->addedE.n = c.dataSize; x->addedE.start = c.startCallTimePoint; x->addedE.timeout = c.timeout;
}
template <> bool vfq<Sender::RespMeta>::more(const void*) { vf_assert(env::holds(&x->s->respListMutex_), "C10/the response list is used under its lock"); bool r = x->mode != 4 && vf_bool("a response is waiting"); x->drained[1] = !r; if (!r && x->mode == 1) x->stale = false; return r; }
template <> void vfq<Sender::RespMeta>::arbitrary(const void*, Sender::RespMeta& c) {
    vf_assert(env::holds(&x->s->respListMutex_), "C10/the response list is used under its lock");
    element(c);
    x->next.callId.clear(); x->next.meta = 2; x->next.who = nullptr; x->next.cb = false;
}
template <> void vfq<Sender::RespMeta>::popped(const void*, Sender::RespMeta& c) {
    vf_assert(env::holds(&x->s->respListMutex_), "C10/the response list is used under its lock");
    taken(x->next);
}
template <> void vfq<Sender::RespMeta>::pushed(const void*, const Sender::RespMeta& c) {
    vf_assert(env::holds(&x->s->respListMutex_), "C10/the response list is used under its lock");
    vf_assert(x->added == 0, "C10,C12/an element is handed over once");
    x->added++;
    x->addedE.channel = c.channel; x->addedE.callId.clear(); x->addedE.meta = 2; x->addedE.who = nullptr; x->addedE.cb = false;
    x->addedE.data = c.data; x->addedE.n = c.dataSize; x->addedE.start = c.startCallTimePoint; x->addedE.timeout = c.timeout;
}
template <class Q> static void dropFront(Q& q) {   // another thread may take it
    if (!q.have) return;
    free(q.slot.data);
    q.slot.data = nullptr;
    q.slot = typename std::remove_reference<decltype(q.slot)>::type();
    q.have = false;
}
static void released(const void* m) {
    if (m == &x->s->callListMutex_) dropFront(x->s->callList_);
    if (m == &x->s->respListMutex_) dropFront(x->s->respList_);
}

// ---- queues of the targets
typedef std::shared_ptr<MessageQueue> MQP;
static bool callMap(const void* m) { return m == &x->s->targetCallMsgQueues_; }
template <> void vfm<MQP>::access(const void* m, bool) {
    vf_assert(env::holds(callMap(m) ? &x->s->targetCallMQsMutex_ : &x->s->targetRespMQsMutex_), "C10/the table of target queues is used under its lock");
}
template <> void vfm<MQP>::arbitraryKey(const void*, std::string& k) { k = vf_string("a target"); }
template <> void vfm<MQP>::arbitrary(const void* m, const std::string& k, MQP& out) { out = g::makeQueue(k + (callMap(m) ? "_call" : "_resp")); }
template <> void vfm<MQP>::visited(const void* m, const std::string&, MQP& v) { vf_assert(g::of(v.get()).closed, "C17/every target queue is closed"); }
template <> void vfm<MQP>::cleared(const void* m) { x->mapCleared[callMap(m) ? 0 : 1] = true; }
template <> void vfm<MQP>::looked(const void*, const std::string&, bool) {}
template <> void vfm<MQP>::erased(const void*, const std::string&) {}
template <> void vfm<ResultMeta>::looked(const void*, const std::string&, bool) {}
template <> void vfm<ResultMeta>::erased(const void*, const std::string&) {}
template <> void vfm<ResultMeta>::access(const void*, bool) {}
template <> void vfm<ResultMeta>::arbitraryKey(const void*, std::string&) {}
template <> void vfm<ResultMeta>::arbitrary(const void*, const std::string&, ResultMeta&) {}
template <> void vfm<ResultMeta>::visited(const void*, const std::string&, ResultMeta&) {}
template <> void vfm<ResultMeta>::cleared(const void*) {}

// ---- contracts of the response dispatcher
namespace veigar {
void RespDispatcher::addOngoingCall(const std::string& id, const ResultMeta& m) {
    vf_assert(x->cur && g::isCall() && vf_str_eq(id, x->e.callId), "C10/the call that is sent is registered");
    vf_assert(m.metaType == x->e.meta && (m.p ? m.p->s.get() : nullptr) == x->e.who && (bool)m.cb == x->e.cb, "C10,C11/a call is registered with its own promise or callback");
    vf_assert(x->pushed == 0, "C10/a call is registered before it can be answered");
    x->registered = true;
}
void RespDispatcher::releaseCall(const std::string& id) {
    vf_assert(x->cur && vf_str_eq(id, x->e.callId), "C10,C11/only the failed call is deregistered");
    vf_assert(x->pushed == 0, "C10/a call that was sent stays registered");
    x->registered = false;
    x->released = true;
}
int64_t TimeUtil::GetCurrentTimestamp() {
    int64_t d = vf_range("time passes", 0, (int64_t)1 << 60);
    vf_assume(w->now <= ((int64_t)1 << 61) - d);
    w->now += d;
    if (x->cur && w->now - x->e.start >= x->e.timeout) x->timeoutSeen = true;
    return w->now;
}
}

static void nextElement();
namespace g {
static bool onOpen(Queue& q, const std::string& path, bool create) {
    vf_assert(!create, "C10/a sender creates no queue");
    vf_assert(q.number == (int32_t)w->capacity && q.size == (int32_t)w->maxSize, "C04/a queue is opened with the configured geometry");
    if (x->mode < 2) {
        x->noQueue = true;      // unless a lock is tried later
    }
    return true;
}
static void onClose(Queue& q) { vf_assert(!q.closed, "C17/a queue is closed once"); }
static void onLockTried(Queue& q, bool ok) {
    x->noQueue = false;
    vf_assert(!env::holdsAny(), "C08/no list lock is held while waiting for a queue");
    x->paused = false;
    if (!ok) x->lockFailed = true;
}
static void onUnlock(Queue& q) {}
static void onSpace(Queue& q, int64_t n, bool ok, bool waitable) {
    vf_assert(x->cur && n == x->e.n, "C16/room is asked for the size of the message");
    x->paused = false;
    x->spaceAsked = true;
    x->neverFit = !ok && !waitable;
}
static void onPush(Queue& q, const void* d, int64_t n) {
    vf_assert(x->cur && x->pushed == 0 && x->outcomes == 0, "C10,C12/a message is sent once and only while its call has no outcome");
    vf_assert(vf_str_eq(q.name, x->e.channel + (isCall() ? "_call" : "_resp")), "C10,C12/a message goes to the queue of its target");
    vf_assert(vf_live(d) && n == x->e.n, "C12,C15/the whole payload is sent");
    vf_assert(n == 0 || ((const uint8_t*)d)[x->k] == x->kth, "C12,C15/the payload is sent unchanged");
    if (isCall()) vf_assert(x->registered, "C10/a call is registered before it can be answered");
}
static void onPushed(Queue& q, bool ok) {
    if (ok) { x->pushed++; x->pushedTo = &q; }
    else x->refused = true;
}
static void onNotify(Queue& q) { vf_assert(q.notifies < q.pushes, "C09/a read signal is only posted for a pushed message"); }
static bool onWaitForRead(Queue& q, int64_t ms) { return vf_bool("signal"); }
static int64_t onNumber(Queue& q) { return vf_range("number", -1, 1 << 30); }
static bool onPop(Queue& q, void* buf, int64_t n, int64_t& written) { vf_assert(false, "C01/a sender removes no message"); return false; }

static bool onEventWait(const void* e, int64_t ms) {
    if (w->probing) { w->probed = e; throw Probe(); }
    vf_assert(!env::holdsAny() && !anyQueueLocked(), "C16/nothing is locked while the thread pauses");
    if (e != &x->s->stopEvent_) nextElement();
    if (!x->cur) {
        vf_assert(!x->stale, "C10,C12,C16/the list is found empty after its event was reset and before the event is waited for");
        vf_assert(x->mode >= 2 || e == (isCall() ? &x->s->callListSetEvent_ : &x->s->respListSetEvent_), "C10/the thread waits for its own list");
        return vf_bool("event");
    }
    vf_assert(e == &x->s->stopEvent_, "C16/a pause ends when the sender stops");
    vf_assert(!x->neverFit, "C16/a message that can never fit is not waited for");
    vf_assert(!x->paused, "C16/the queue is examined again after every pause");
    vf_assert(ms >= 0 && ms * 1000 <= x->e.timeout, "C16/a pause does not exceed the timeout");
    x->paused = x->waited = true;
    if (vf_bool("the sender stops")) { x->stop = true; return true; }
    return false;
}
static bool onEventQuery(const void* e, bool cancelled) {
    if (x->mode < 2) vf_assert(e == (isCall() ? &x->s->callListSetEvent_ : &x->s->respListSetEvent_) || e == &x->s->stopEvent_, "C10/the thread looks at its own events");
    bool r = vf_bool("event state");
    if (r && cancelled && e != &x->s->stopEvent_) x->stale = false;   // stopping
    if (r && (cancelled || e == &x->s->stopEvent_)) x->stopSeen = true;
    return r;
}
static void onEvent(const void* e, EventOp op) {
    if (x->mode < 2) {
        vf_assert(op == UNSET && e == (isCall() ? &x->s->callListSetEvent_ : &x->s->respListSetEvent_), "C10/the thread only resets its own event");
        x->stale = true;
        return;
    }
    if (e == &x->s->callListSetEvent_) { if (op == SET) x->setCall = x->added > 0 && !env::holds(&x->s->respListMutex_); if (op == CANCEL) x->callCancelled = true; if (op == UNCANCEL || op == RESET) x->callCancelled = false; }
    if (e == &x->s->respListSetEvent_) { if (op == SET) x->setResp = x->added > 0; if (op == CANCEL) x->respCancelled = true; if (op == UNCANCEL || op == RESET) x->respCancelled = false; }
    if (e == &x->s->stopEvent_) { if (op == SET || op == CANCEL) x->stopSet = true; else x->stopSet = false; }
}
static void onOutcome(int kind, const void* who, const CallResult& r) {
    vf_assert(x->cur && isCall(), "C10/an outcome belongs to the call being sent");
    vf_assert(x->outcomes == 0, "C10/a call gets one outcome");
    vf_assert(x->pushed == 0, "C10/no failure is reported for a call that was sent");
    vf_assert(kind == x->e.meta && (kind != 0 || who == x->e.who), "C10/the outcome goes to the promise or callback of the call");
    vf_assert(r.errCode != ErrorCode::SUCCESS, "C10/a failure is not reported as success");
    vf_assert(!env::holdsAny() && !anyQueueLocked(), "C10/no lock is held while the outcome is delivered");
    if (x->mode == 2) vf_assert(r.errCode == ErrorCode::FAILED, "C10/the outcome is of the right kind");
    else if (!w->thrown && !x->stop && !x->neverFit)
        vf_assert(r.errCode == (x->noQueue || x->refused || !x->cur ? ErrorCode::FAILED : x->lockFailed || x->timeoutSeen ? ErrorCode::TIMEOUT : ErrorCode::FAILED), "C10/the outcome is of the right kind");
    x->outcomes++;
}
static void onThreadStart(const void* p) {
    if (p == &x->s->callListSetEvent_) x->callThreads++;
    else if (p == &x->s->respListSetEvent_) x->respThreads++;
    else vf_assert(false, "C17/a started thread serves a list");
}
static void onJoin() { vf_assert(x->stopSet && x->callCancelled && x->respCancelled, "C17/the threads are told to stop before they are awaited"); }

// what holds whenever no element is being processed
static void settled(bool listLocked = false) {
    vf_assert(listLocked || !env::holdsAny(), "C08/every list lock is released");
    vf_assert(!anyQueueLocked(), "C08/every queue lock is released");
    for (int i = 0; i < w->nq; i++) vf_assert(w->q[i].pushes == w->q[i].notifies, "C09/one read signal for every pushed message");
    if (x->cur) {
        vf_assert(!vf_live(x->e.data), "C15/the payload is freed when its message is done");
        if (x->mode == 2) {
            vf_assert(x->pushed == 0, "C10/nothing is sent while stopping");
            if (x->recipients) vf_assert(x->outcomes == (x->e.meta != 2), "C10/a waiting call fails when the sender stops");
        } else {
            if (x->pushed == 0) {
                vf_assert(x->noQueue || x->lockFailed || x->spaceAsked || x->timeoutSeen || x->stop || w->thrown, "C10,C12/a message is only given up for a reason");
                if (x->spaceAsked && !x->refused && !x->neverFit && !x->stop && !w->thrown)
                    vf_assert(x->timeoutSeen, "C16/waiting for room ends only when the timeout has elapsed");
                vf_assert(!x->paused || x->stop, "C16/the queue is examined again after every pause");
                if (isCall()) {
                    if (x->recipients) vf_assert(x->outcomes == 1, "C10/a call that was not sent gets its failure");
                    vf_assert(!x->registered, "C10/a failed call is deregistered");
                }
            } else {
                vf_assert(x->outcomes == 0, "C10/a call that was sent gets no failure");
                if (isCall()) vf_assert(x->registered, "C10/a call that was sent stays registered");
            }
        }
    }
}
}  // namespace g

extern "C" {
bool vfx_loop_idle() { return x && x->mode < 3 && !w->probing && !(x->cur && vf_live(x->e.data)) && !g::anyQueueLocked() && !(x->mode == 2 && w->threads > 0); }
void vfx_loop_check() {
    // (uninit looks at its lists under their locks)
    if (x->mode == 2) {
        dropFront(x->s->callList_);
        dropFront(x->s->respList_);
    }
    if (x->mode < 2) { g::settled(); x->stopSeen = false; }
    else if (x->cur) {
        vf_assert(!vf_live(x->e.data), "C15/the payload is freed when its message is done");
        if (x->recipients) vf_assert(x->outcomes == (x->e.meta != 2), "C10/a waiting call fails when the sender stops");
    }
    g::clearWork();
    x->next.channel.clear(); x->next.callId.clear(); x->next.meta = 0; x->next.who = nullptr; x->next.cb = false; x->next.data = nullptr;
    x->next.n = x->next.start = x->next.timeout = 0;
    x->e = x->next;
    x->k = 0; x->kth = 0;
    if (x->mode < 2) { x->s->targetCallMsgQueues_.forget(true); x->s->targetRespMsgQueues_.forget(true); }
    else {
        if (x->s->targetCallMsgQueues_.open) x->s->targetCallMsgQueues_.forget(true);
        if (x->s->targetRespMsgQueues_.open) x->s->targetRespMsgQueues_.forget(true);
    }
    g::scrubQueues(x->base);
    if (!x->s->callList_.have) x->s->callList_.slot.startCallTimePoint = 0;
    if (!x->s->respList_.have) x->s->respList_.slot.startCallTimePoint = 0;
    if (x->mode < 2) x->drained[0] = x->drained[1] = false;
    if (x->mode < 2) w->q[0].pushes = w->q[0].notifies = w->q[1].pushes = w->q[1].notifies = 0;
}
void vfx_loop_havoc() {
    w->now = vf_range("now", 0, (int64_t)1 << 60);
    if (x->mode == 2) {
        if (env::holds(&x->s->targetCallMQsMutex_) && x->s->targetCallMsgQueues_.open) x->s->targetCallMsgQueues_.next();
        if (env::holds(&x->s->targetRespMQsMutex_) && x->s->targetRespMsgQueues_.open) x->s->targetRespMsgQueues_.next();
    }
}
}

static RespDispatcher* dummyDisp;
static Sender* setup(Sender* s, g::Ghost* gh, g::Work* wk, int mode) {
    g::initGhost(gh);
    x = wk;
    x->s = s;
    x->mode = mode;
    x->added = 0;
    x->set = x->setCall = x->setResp = x->stopSet = x->callCancelled = x->respCancelled = false;
    x->base = 0;
    x->recipients = true; x->drained[0] = x->drained[1] = x->mapCleared[0] = x->mapCleared[1] = false; x->callThreads = x->respThreads = 0; x->stale = x->stopSeen = false;
    g::clearWork();
    g::configure();
    gh->th.onRelease = released;
    env::mutexIndex(&s->callListMutex_); env::mutexIndex(&s->respListMutex_);
    env::mutexIndex(&s->targetCallMQsMutex_); env::mutexIndex(&s->targetRespMQsMutex_);
    x->next.data = nullptr; x->next.who = nullptr; x->next.cb = false; x->next.meta = 0; x->next.n = x->next.start = x->next.timeout = 0;
    x->e = x->next;
    x->k = 0; x->kth = 0;
    s->targetCallMsgQueues_.open = true;
    s->targetRespMsgQueues_.open = true;
    return s;
}
static char dispMem[sizeof(RespDispatcher)];
static void attach(Sender* s) {
    s->respDisp_ = std::shared_ptr<RespDispatcher>(std::shared_ptr<void>(), (RespDispatcher*)dispMem);
    s->selfCallMQ_ = g::makeQueue(w->channel + "_call");
    s->selfRespMQ_ = g::makeQueue(w->channel + "_resp");
    x->base = 2;
}

// a native run has no cut loops: settle the previous element when the next one is taken
static void nextElement() {
#ifndef VF_VERIFIER
    if (!x->cur) return;
    g::settled(true);
    g::clearWork();
    for (int i = 0; i < w->nq; i++) w->q[i].pushes = w->q[i].notifies = 0;
#endif
}

static void thread(int mode, bool recipients) {
    g::Ghost gh; g::Work wk;
    Sender s((Veigar*)&gh);
    setup(&s, &gh, &wk, mode);
    attach(&s);
    x->recipients = recipients;
    if (mode == 0) s.sendCallThreadProc();
    else s.sendRespThreadProc();
    vf_assert(x->stopSeen, "C10,C12,C17/the thread serves its list until it is told to stop");
    g::settled();
}
VF_HARNESS(call_thread) {
    thread(0, true);
    vf_cover("call_thread:end");
}
VF_HARNESS(call_thread_norecipient) {
    thread(0, false);
    vf_cover("call_thread_norecipient:end");
}
VF_HARNESS(resp_thread) {
    thread(1, true);
    vf_cover("resp_thread:end");
}

// ---- handing over
VF_HARNESS(add) {
    g::Ghost gh; g::Work wk;
    Sender s((Veigar*)&gh);
    setup(&s, &gh, &wk, 3);
    bool call = vf_bool("a call");
    Sender::CallMeta c;
    Sender::RespMeta r;
    if (call) {
        element(c);
        c.callId = vf_string("call id");
        c.resultMeta.metaType = (int8_t)vf_range("meta type", 0, 1);
        if (c.resultMeta.metaType == 0) c.resultMeta.p = std::make_shared<std::promise<CallResult>>();
        else c.resultMeta.cb = [](const CallResult& r) { g::onOutcome(1, nullptr, r); };
        s.addCall(c);
    } else {
        element(r);
        s.addResp(r);
    }
    const g::Elem& e = x->addedE;
    vf_assert(x->added == 1, "C10,C12/an element is handed over once");
    vf_assert(vf_str_eq(e.channel, x->next.channel) && e.data == x->next.data && e.n == x->next.n && e.start == x->next.start && e.timeout == x->next.timeout,
              "C10,C15,C16/an element is handed over unchanged");
    vf_assert(e.meta == (call ? c.resultMeta.metaType : 2), "C10,C12/an element is handed over unchanged");
    if (call) {
        vf_assert(vf_str_eq(e.callId, c.callId), "C10/a call keeps its id");
        vf_assert(e.who == (c.resultMeta.p ? c.resultMeta.p->s.get() : nullptr) && e.cb == (bool)c.resultMeta.cb, "C10/a call keeps its promise or callback");
        vf_assert(x->setCall, "C10/the call thread is woken after the call was handed over");
    } else {
        vf_assert(x->setResp, "C10,C12/the response thread is woken after the response was handed over");
    }
    vf_assert(!env::holdsAny(), "C08/every list lock is released");
    vf_assert(vf_live(x->next.data), "C15/the payload is kept until it is sent");
    free(x->next.data);
    vf_cover("add:end");
}

// ---- start
VF_HARNESS(start) {
    g::Ghost gh; g::Work wk;
    Sender s((Veigar*)&gh);
    setup(&s, &gh, &wk, 4);
    s.targetCallMsgQueues_.open = false;
    s.targetRespMsgQueues_.open = false;
    s.isInit_ = vf_bool("already initialised");
    const bool was = s.isInit_;
    x->stopSet = true;         // from an earlier uninit
    x->callCancelled = x->respCancelled = false;   // (every initialisation of an instance makes a new sender)
    std::shared_ptr<RespDispatcher> d((std::shared_ptr<void>()), (RespDispatcher*)dispMem);
    std::shared_ptr<MessageQueue> c = g::makeQueue(w->channel + "_call"), r = g::makeQueue(w->channel + "_resp");
    bool ok = s.init(d, c, r);
    vf_assert(ok == s.isInit(), "C17/init reports whether the sender runs");
    vf_assert(!env::holdsAny(), "C08/every list lock is released");
    if (was) {
        vf_assert(ok && gh.threads == 0, "C17/a repeated init starts nothing");
        vf_cover("start:again");
        return;
    }
    vf_assert(ok == !gh.threadFailed, "C17/init succeeds exactly when every thread was started");
    if (ok) {
        vf_assert(x->callThreads == VEIGAR_SEND_CALL_THREAD_NUMBER && x->respThreads == VEIGAR_SEND_RESPONSE_THREAD_NUMBER, "C17/both lists are served");
        vf_assert(s.respDisp_ == d && s.selfCallMQ_ == c && s.selfRespMQ_ == r, "C17,C10/the sender uses the queues and dispatcher of its instance");
        vf_assert(!x->stopSet && !x->callCancelled && !x->respCancelled, "C17/a restarted sender is not stopped");
        vf_cover("start:ok");
        for (auto& t : s.callWorkers_) *(uint64_t*)&t = 0;   // (the harness does not run them)
        for (auto& t : s.respWorkers_) *(uint64_t*)&t = 0;
    } else {
        vf_assert(gh.threads == 0, "C17/a failed init leaves no thread");
        vf_assert(!s.respDisp_ && !s.selfCallMQ_ && !s.selfRespMQ_, "C17/a failed init keeps nothing");
        vf_cover("start:failed");
    }
}

// ---- stop
VF_HARNESS(stop) {
    g::Ghost gh; g::Work wk;
    Sender s((Veigar*)&gh);
    setup(&s, &gh, &wk, 2);
    attach(&s);
    s.isInit_ = true;
    x->stopSet = x->callCancelled = x->respCancelled = false;
    for (int i = 0; i < 2 && vf_bool("another call thread runs"); i++) { s.callWorkers_.emplace_back(); *(uint64_t*)&s.callWorkers_[i] = 1; gh.threads++; }
    for (int i = 0; i < 2 && vf_bool("another response thread runs"); i++) { s.respWorkers_.emplace_back(); *(uint64_t*)&s.respWorkers_[i] = 1; gh.threads++; }
    s.uninit();
    vf_assert(gh.threads == 0, "C17/every thread has ended");
    vf_assert(!s.isInit(), "C17/an uninitialised sender says so");
    vf_assert(!env::holdsAny() && !g::anyQueueLocked(), "C08/every lock is released");
    vf_assert(x->drained[0] && x->drained[1], "C15,C10/nothing is left waiting");
    vf_assert(x->mapCleared[0] && x->mapCleared[1], "C17/no target queue is kept");
    vf_assert(!s.respDisp_ && !s.selfCallMQ_ && !s.selfRespMQ_, "C17/the queues of the instance are let go");
    vf_cover("stop:end");
}
