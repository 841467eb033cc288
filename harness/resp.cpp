/* Contracts of RespDispatcher: receiving and matching responses, the table of pending calls, start and stop. */
#include "glue_env.h"
#include "glue_msgpack.h"
#include "resp_dispatcher.h"
#include "veigar/detail/response.h"
using namespace veigar;

namespace g {
enum Kind { NONE, NIL, STR, OTHER };
struct Work {
    RespDispatcher* d;
    int mode;                       // 0: the thread, 1: init/uninit, 2: table
    int base;
    // the response being handled
    bool cur;
    bool array, flagOk, idOk; int size; int err;   // err: Kind of the error element
    std::string id, errText;
    int resType; int64_t resU; bool cloned; int64_t cloneU;
    bool looked, found, erased; int8_t meta; const void* who; bool cb;
    int outcomes;
    mp::object* elems;
    // init / uninit
    bool mapCleared; bool probeForever;
};
static Work* x;
static void clearCur() {
    x->cur = x->array = x->flagOk = x->idOk = x->cloned = x->looked = x->found = x->erased = x->cb = false;
    x->size = 0; x->err = NONE; x->id.clear(); x->errText.clear(); x->resType = 0; x->resU = x->cloneU = 0;
    x->meta = 0; x->who = nullptr; x->outcomes = 0;
    if (x->elems) free(x->elems);
    x->elems = nullptr;
}
static bool wellFormed() { return x->array && x->flagOk && x->idOk; }
// what holds when a decoded object has been handled
static void handled() {
    if (!x->cur) return;
    vf_assert(!env::holdsAny(), "C08,C11/the table of pending calls is unlocked");
    if (!wellFormed()) vf_assert(x->outcomes == 0, "C11/a malformed response completes nothing");
    else {
        vf_assert(x->looked, "C11/a response is matched with the pending calls");
        vf_assert(x->outcomes == (x->found ? 1 : 0), "C11/a response completes exactly the call it answers");
        vf_assert(x->found == x->erased, "C11/an answered call is no longer pending");
        if (x->outcomes == 1) vf_cover("resp_loop:completed");
    }
    clearCur();
    w->throwBudget = 1; w->thrown = false;
}
}  // namespace g
using g::x;
using g::w;
using g::r;

// ---- the object that was decoded
static void setStr(mp::object& o, const std::string& s) {
    o.type = mp::type::STR;
    vf_assume(s.size() <= 0xffffffffu);
    o.via.str.size = (uint32_t)s.size();
    o.via.str.ptr = s.data();
}
static void setOther(mp::object& o) {      // neither nil nor text
    o.type = mp::type::BOOLEAN;
    o.via.boolean = vf_bool("boolean");
}
namespace g {
static void nextObject(mp::object& o) {
    handled();
    w->throwBudget = 1; w->thrown = false;
    x->cur = true;
    if (vf_bool("the object is not an array")) { setOther(o); return; }
    x->array = true;
    o.type = mp::type::ARRAY;
    x->elems = (mp::object*)malloc(6 * sizeof(mp::object));
    o.via.array.ptr = x->elems;
    int n = 0;
    if (vf_bool("1 element")) n = 1;
    if (n == 1 && vf_bool("2 elements")) n = 2;
    if (n == 2 && vf_bool("3 elements")) n = 3;
    if (n == 3 && vf_bool("4 elements")) n = 4;
    x->size = n;
    uint32_t more = n == 4 ? (uint32_t)vf_range("further elements", 0, 0xfffffff0LL) : 0;
    o.via.array.size = n + more;
    if (n == 0) { x->flagOk = false; return; }
    // flag
    mp::object* e = x->elems;
    if (vf_bool("flag is a non-negative integer")) {
        int64_t v = vf_range("flag", 0, 0x7fffffffffffffffLL);
        e[0].type = mp::type::POSITIVE_INTEGER; e[0].via.u64 = (uint64_t)v;
        x->flagOk = v == 1;
    } else if (vf_bool("flag is negative")) { e[0].type = mp::type::NEGATIVE_INTEGER; e[0].via.i64 = vf_range("flag", -0x7fffffffffffffffLL, -1); }
    else setOther(e[0]);
    if (n == 1) return;
    // id
    if (vf_bool("id is text")) {
        x->id = vf_string("call id of the response");
        setStr(e[1], x->id);
        x->idOk = !x->id.empty();
    } else setOther(e[1]);
    if (n == 2) return;
    // error
    if (vf_bool("error is nil")) { e[2].type = mp::type::NIL; x->err = NIL; }
    else if (vf_bool("error is text")) { x->errText = vf_string("error text"); setStr(e[2], x->errText); x->err = STR; }
    else { setOther(e[2]); x->err = OTHER; }
    if (n == 3) return;
    // result: any value, identified by its bits
    if (vf_bool("result is nil")) e[3].type = mp::type::NIL;
    else {
        e[3].type = mp::type::POSITIVE_INTEGER;
        x->resU = vf_range("result", 0, 0x7fffffffffffffffLL);
        e[3].via.u64 = (uint64_t)x->resU;
    }
    x->resType = e[3].type;
}
static void cloned(const mp::object& o, mp::object& c) {
    c.type = o.type;
    if (o.type == mp::type::STR) c.via.str = o.via.str;
    else if (o.type == mp::type::BOOLEAN) c.via.boolean = o.via.boolean;
    else if (o.type == mp::type::POSITIVE_INTEGER) {
        vf_assert(x->cur && x->size == 4 && (int64_t)o.via.u64 == x->resU, "C11/the result value is the one that was received");
        x->cloned = true;
        x->cloneU = vf_range("identity of the copy", 0, 0x7fffffffffffffffLL);
        c.via.u64 = (uint64_t)x->cloneU;
    }
}
}  // namespace g

// ---- pending calls
template <> void vfm<ResultMeta>::access(const void*, bool) { vf_assert(env::holds(&x->d->ongoingCallsMutex_), "C11/the table of pending calls is used under its lock"); }
template <> void vfm<ResultMeta>::arbitraryKey(const void*, std::string& k) { k = vf_string("another call id"); }
template <> void vfm<ResultMeta>::arbitrary(const void*, const std::string& k, ResultMeta& m) {
    m.metaType = (int8_t)vf_range("meta type", 0, 1);
    m.p = std::make_shared<std::promise<CallResult>>();
    m.cb = [](const CallResult& c) { g::onOutcome(1, nullptr, c); };
    if (x->mode == 0 && x->cur && !x->looked && vf_str_eq(k, x->id)) {
        x->meta = m.metaType;
        x->who = m.p->s.get();
    }
}
template <> void vfm<ResultMeta>::looked(const void*, const std::string& k, bool present) {
    if (x->mode != 0 || !x->cur || x->looked) return;
    vf_assert(g::wellFormed(), "C11/only a well-formed response is matched");
    vf_assert(vf_str_eq(k, x->id), "C11/a response is matched with the call id it carries");
    x->looked = true;
    x->found = present;
}
template <> void vfm<ResultMeta>::erased(const void*, const std::string& k) {
    if (x->mode != 0) return;
    vf_assert(x->cur && vf_str_eq(k, x->id), "C11/only the answered call is taken out");
    x->erased = true;
}
template <> void vfm<ResultMeta>::visited(const void*, const std::string&, ResultMeta&) {}
template <> void vfm<ResultMeta>::cleared(const void*) { vf_assert(x->mode == 1, "C11/pending calls are only dropped at shutdown"); x->mapCleared = true; }
static void released(const void* m) {
    if (x->mode == 0 && m == &x->d->ongoingCallsMutex_) x->d->ongoingCalls_.forget(true);   // other threads use the table
}

int64_t TimeUtil::GetCurrentTimestamp() { return w->now; }
namespace g {
static bool onOpen(Queue& q, const std::string& path, bool create) {
    vf_assert(create && x->mode == 1, "C17/the response queue of the instance is created");
    vf_assert(vf_str_eq(path, w->channel + "_resp"), "C17,C11/the response queue carries the name of the channel");
    vf_assert(q.number == (int32_t)w->capacity && q.size == (int32_t)w->maxSize, "C04/the queue is created with the configured geometry");
    return true;
}
static void onClose(Queue& q) { vf_assert(!q.closed && x->mode == 1, "C17/a queue is closed once"); vf_assert(w->threads == 0, "C17/the threads have ended before their queue is closed"); }
static void onLockTried(Queue& q, bool ok) {
    vf_assert(!env::holdsAny(), "C08/no other lock is held while waiting for the queue");
    lockTried(ok);
}
static void onUnlock(Queue& q) {}
static void onSpace(Queue& q, int64_t n, bool ok, bool waitable) {}
static void onPush(Queue& q, const void* d, int64_t n) { vf_assert(false, "C11/a receiver pushes nothing"); }
static void onPushed(Queue& q, bool ok) {}
static void onNotify(Queue& q) {}
static void settle(Queue& q) {
    handled();
    receivedAll(q);
    clearRecv();
    q.notifies = 0;
    r->stage = 0; r->left = r->dirty = false;
    w->throwBudget = 1; w->thrown = false;
}
static bool onWaitForRead(Queue& q, int64_t ms) {
    if (w->probing) { w->probed = &q; x->probeForever = ms < 0; throw Probe(); }
#ifndef VF_VERIFIER
    settle(q);
#endif
    vf_assert(!env::holdsAny() && !anyQueueLocked(), "C08/nothing is locked while waiting for a message");
    r->waited = true;
    vf_assert(!r->signal, "C09/one signal is consumed for a message");
    if (vf_bool("the dispatcher stops")) { x->d->stop_.store(true); r->stopSeen = true; }
    r->signal = vf_bool("signal");
    return r->signal;
}
static int64_t onNumber(Queue& q) { return r->waiting; }
static bool onPop(Queue& q, void* buf, int64_t n, int64_t& written) { return popInto(q, buf, n, written); }
static bool onEventWait(const void* e, int64_t ms) { return false; }
static bool onEventQuery(const void* e, bool cancelled) { return false; }
static void onEvent(const void* e, EventOp op) {}
static void onOutcome(int kind, const void* who, const CallResult& c) {
    vf_assert(x->cur && wellFormed() && x->looked && x->found, "C11/only a pending call named by a response is completed");
    vf_assert(x->outcomes == 0, "C11/a call is completed once");
    vf_assert(x->erased, "C11/a call is no longer pending when it is completed");
    vf_assert(kind == x->meta && (kind != 0 || who == x->who), "C11/the response completes the call it answers");
    vf_assert(!env::holdsAny() && !anyQueueLocked(), "C11/no lock is held while the result is delivered");
    if (c.errCode == ErrorCode::SUCCESS) {
        vf_assert(x->err != OTHER, "C11/a response with an error that is no text is not a success");
        if (x->err == STR) vf_assert(vf_str_eq(c.errorMessage, x->errText), "C11/the error text is delivered unchanged");
        else vf_assert(c.errorMessage.empty(), "C11/no error text is made up");
        const mp::object& o = c.obj.get();
        if (x->resType == mp::type::POSITIVE_INTEGER)
            vf_assert(o.type == mp::type::POSITIVE_INTEGER && x->cloned && (int64_t)o.via.u64 == x->cloneU, "C11/the result value is delivered unchanged");
        else vf_assert(o.type == mp::type::NIL, "C11/the result value is delivered unchanged");
    } else
        vf_assert(w->thrown || x->err == OTHER, "C11/a good response is delivered as a success");
    x->outcomes++;
}
static void onThreadStart(const void* p) {}
static void onJoin() {
    vf_assert(x->d->stop_.load(), "C17/the threads are told to stop before they are awaited");
    if (x->probeForever) vf_assert(w->q[0].notifies >= w->threads, "C17/every waiting thread is woken before it is awaited");
}
}  // namespace g

extern "C" {
bool vfx_loop_idle() { return x && x->mode == 0 && !w->probing && !g::anyQueueLocked() && !env::holdsAny(); }
void vfx_loop_check() {
    r->waited = true;        // the loop has been entered
    g::handled();
    if (r->stage == 1) {     // further objects of the message may follow
        w->throwBudget = 1; w->thrown = false;
        return;
    }
    g::receivedAll(w->q[0]);
    g::clearRecv();
    w->q[0].notifies = 0;
    r->stage = 0; r->left = r->dirty = false;
    w->throwBudget = 1; w->thrown = false;
}
void vfx_loop_havoc() {
    r->cap = vf_range("room", 0, (int64_t)1 << 47);
    x->d->stop_.store(vf_bool("the dispatcher is stopping"));
    r->objects = r->stage == 1 && vf_bool("an object of the message has been decoded") ? 1 : 0;
    if (r->stage == 1) r->size = vf_range("message size", 0, (int64_t)1 << 46);
}
}

static void setup(RespDispatcher* d, g::Ghost* gh, g::Work* wk, g::Recv* rv, int mode) {
    g::initGhost(gh);
    g::initRecv(rv);
    x = wk;
    x->d = d; x->mode = mode; x->base = 0; x->elems = nullptr;
    x->mapCleared = x->probeForever = false;
    g::clearCur();
    g::configure();
    gh->th.onRelease = released;
    env::mutexIndex(&d->ongoingCallsMutex_);
    d->ongoingCalls_.open = true;
}

VF_HARNESS(resp_loop) {
    g::Ghost gh; g::Work wk; g::Recv rv;
    RespDispatcher d((Veigar*)&gh);
    setup(&d, &gh, &wk, &rv, 0);
    d.respMsgQueue_ = g::makeQueue(w->channel + "_resp");
    d.init_ = true;
    w->throwBudget = 1;
    d.dispatchRespThreadProc();
    g::ended(d.stop_.load());
    if (d.stop_.load()) vf_cover("resp_loop:stopped");
    g::settle(w->q[0]);
}

VF_HARNESS(resp_table) {
    g::Ghost gh; g::Work wk; g::Recv rv;
    RespDispatcher d((Veigar*)&gh);
    setup(&d, &gh, &wk, &rv, 2);
    std::string id = vf_string("call id"), other = vf_string("another call id");
    vf_assume(!vf_str_eq(id, other));
    bool otherThere, otherAfter, there;
    {
        std::lock_guard<std::mutex> lg(d.ongoingCallsMutex_);
        otherThere = d.ongoingCalls_.count(other) > 0;
        if (vf_bool("look first")) d.ongoingCalls_.count(id);
    }
    bool add = vf_bool("add");
    ResultMeta m;
    m.metaType = (int8_t)vf_range("meta type", 0, 1);
    m.p = std::make_shared<std::promise<CallResult>>();
    if (add) d.addOngoingCall(id, m);
    else d.releaseCall(id);
    vf_assert(!env::holdsAny(), "C11/the table of pending calls is unlocked");
    {
        std::lock_guard<std::mutex> lg(d.ongoingCallsMutex_);
        there = d.ongoingCalls_.count(id) > 0;
        otherAfter = d.ongoingCalls_.count(other) > 0;
        if (add && there) vf_assert(d.ongoingCalls_[id].p == m.p && d.ongoingCalls_[id].metaType == m.metaType, "C10,C11/a registered call keeps its promise or callback");
    }
    vf_assert(there == add, "C10,C11/exactly a registered call is pending");
    vf_assert(otherThere == otherAfter, "C10,C11/other calls are left alone");
    vf_cover("resp_table:end");
}

VF_HARNESS(resp_init) {
    g::Ghost gh; g::Work wk; g::Recv rv;
    RespDispatcher d((Veigar*)&gh);
    setup(&d, &gh, &wk, &rv, 1);
    d.ongoingCalls_.open = false;
    if (vf_bool("stopped before")) d.stop_.store(true);
    bool ok = d.init();
    vf_assert(ok == d.isInit(), "C17/init reports whether the dispatcher runs");
    if (!ok) {
        vf_assert(gh.threadFailed || gh.createFailed || gh.thrown, "C17/init fails only when a step of it failed");
        vf_assert(gh.threads == 0, "C17/a failed init leaves no thread");
        for (int i = 0; i < gh.nq; i++) vf_assert(!gh.q[i].created, "C17/a failed init leaves no queue");
        d.uninit();
        vf_assert(!d.isInit() && gh.threads == 0, "C17/uninit after a failed init is harmless");
        vf_cover("resp_init:failed");
    } else {
        vf_assert(!gh.threadFailed && gh.threads == VEIGAR_DISPATCHER_THREAD_NUMBER, "C17/init succeeds when every thread runs");
        vf_assert(gh.nq == 1 && gh.q[0].created && d.messageQueue().get() == gh.q[0].p, "C17/the response queue exists");
        vf_assert(gh.probed == &gh.q[0], "C17/the threads serve the response queue");
        vf_assert(!d.stop_.load(), "C17/a started dispatcher is not stopped");
        d.ongoingCalls_.forget(true);
        int n = gh.threads;
        bool again = d.init();
        vf_assert(again && gh.threads == n && gh.nq == 1, "C17/repeating init starts nothing");
        d.uninit();
        vf_assert(gh.threads == 0 && !d.isInit(), "C17/uninit ends every thread");
        vf_assert(gh.q[0].closed && !d.messageQueue(), "C17/uninit releases the response queue");
        vf_assert(x->mapCleared, "C17/uninit forgets the pending calls");
        vf_assert(!env::holdsAny(), "C17/every lock is released");
        vf_cover("resp_init:ok");
        d.uninit();
        vf_assert(!d.isInit(), "C17/uninit is harmless when repeated");
        // and again
        ok = d.init();
        vf_assert(ok == d.isInit(), "C17/init reports whether the dispatcher runs");
        if (ok) {
            vf_assert(gh.threads == n && gh.q[gh.nq - 1].created && d.messageQueue().get() == gh.q[gh.nq - 1].p && !d.stop_.load(), "C17/the dispatcher can be started again");
            vf_cover("resp_init:again");
            for (auto& t : d.workers_) *(uint64_t*)&t = 0;   // (the harness does not run them)
        } else
            vf_assert(gh.threads == 0, "C17/a failed init leaves no thread");
    }
}
