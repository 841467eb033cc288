/* Contracts of CallDispatcher: receiving and dispatching calls, the registry of functions, start and stop. */
#include "glue_env.h"
#include "glue_msgpack.h"
#include "veigar/call_dispatcher.h"
using namespace veigar;
using detail::CallDispatcher;
using detail::Response;

extern "C" {
std::atomic_bool* vfa_stop(CallDispatcher* d);
std::shared_ptr<MessageQueue>* vfa_queue(CallDispatcher* d);
std::vector<std::thread>* vfa_workers(CallDispatcher* d);
}

#ifdef VF_VERIFIER
#define VF_BIG ((int64_t)1 << 46)
#else
#define VF_BIG ((int64_t)1 << 16)
#endif
namespace g {
struct Work {
    CallDispatcher* d;
    int mode;                       // 0: the thread, 1: init/uninit, 2: registry
    // the call being handled
    bool cur, array, five, flagOk, textOk, argsArray; int64_t argsSize; bool argsFlag;
    std::string id, caller, func;
    bool looked, found; int runs; bool failed; int resType; int64_t resU;
    int packed; bool packErr, packRes; std::string packId; int packType; int64_t packU; const void* data; int64_t size;
    int sent;
    mp::object* elems;
    bool probeForever, cleared;
};
static Work* x;
static void clearCur() {
    x->cur = x->array = x->five = x->flagOk = x->textOk = x->argsArray = x->argsFlag = x->looked = x->found = x->failed = x->packErr = x->packRes = false;
    x->argsSize = 0; x->id.clear(); x->caller.clear(); x->func.clear(); x->packId.clear();
    x->runs = x->resType = x->packed = x->packType = x->sent = 0; x->resU = x->packU = 0; x->data = nullptr;
    if (x->elems) free(x->elems);
    x->elems = nullptr;
}
static bool wellFormed() { return x->array && x->five && x->flagOk && x->textOk; }
static void handled() {
    if (!x->cur) return;
    vf_assert(!env::holdsAny(), "C08/no lock is kept");
    if (!wellFormed()) vf_assert(x->runs == 0, "C12/a malformed message executes nothing");
    else if (!x->caller.empty()) {
        vf_assert(x->looked, "C12/the function named in the call is looked up");
        vf_assert(x->runs == (x->found ? 1 : 0), "C12/the bound function is executed exactly once");
        if (!w->thrown) vf_assert(x->sent == 1, "C12/a call is answered exactly once");
        if (x->runs == 1 && x->sent == 1) vf_cover("call_loop:answered");
    }
    clearCur();
    w->throwBudget = 0; w->thrown = false;
}
}  // namespace g
using g::x;
using g::w;
using g::r;

static void setStr(mp::object& o, const std::string& s) {
    o.type = mp::type::STR;
    vf_assume(s.size() <= 0xffffffffu);
    o.via.str.size = (uint32_t)s.size();
    o.via.str.ptr = s.data();
}
static void setOther(mp::object& o) {
    o.type = mp::type::BOOLEAN;
    o.via.boolean = vf_bool("boolean");
}
static char argBytes;
namespace g {
static void nextObject(mp::object& o) {
    handled();
    x->cur = true;
    if (vf_bool("the object is not an array")) { setOther(o); return; }
    x->array = true;
    o.type = mp::type::ARRAY;
    x->elems = (mp::object*)malloc(5 * sizeof(mp::object));
    o.via.array.ptr = x->elems;
    mp::object* e = x->elems;
    if (vf_bool("the array has not 5 elements")) {
        o.via.array.size = (uint32_t)vf_range("elements", 0, 0xffffffffLL);
        vf_assume(o.via.array.size != 5);
        // a longer or shorter call is not looked into
        return;
    }
    o.via.array.size = 5;
    x->five = true;
    if (vf_bool("flag is a non-negative integer")) {
        int64_t v = vf_range("flag", 0, 0x7fffffffffffffffLL);
        e[0].type = mp::type::POSITIVE_INTEGER; e[0].via.u64 = (uint64_t)v;
        x->flagOk = v == 0;
    } else if (vf_bool("flag is negative")) { e[0].type = mp::type::NEGATIVE_INTEGER; e[0].via.i64 = vf_range("flag", -0x7fffffffffffffffLL, -1); }
    else setOther(e[0]);
    x->textOk = true;
    if (vf_bool("id is text")) { x->id = vf_string("call id"); setStr(e[1], x->id); } else { setOther(e[1]); x->textOk = false; }
    if (vf_bool("caller is text")) { x->caller = vf_string("caller"); setStr(e[2], x->caller); } else { setOther(e[2]); x->textOk = false; }
    if (vf_bool("function is text")) { x->func = vf_string("function"); setStr(e[3], x->func); } else { setOther(e[3]); x->textOk = false; }
    if (vf_bool("arguments are an array")) {
        x->argsArray = true;
        x->argsSize = vf_range("arguments", 0, 0xffffffffLL);
        e[4].type = mp::type::ARRAY; e[4].via.array.size = (uint32_t)x->argsSize; e[4].via.array.ptr = (mp::object*)&argBytes;
    } else { setOther(e[4]); x->argsFlag = e[4].via.boolean; }
}
static void cloned(const mp::object& o, mp::object& c) { c = o; }
// the bound function
static std::unique_ptr<mp::object_handle> run(const std::string& name, const mp::object& args) {
    vf_assert(x->cur && wellFormed(), "C12/only a well-formed call executes a function");
    vf_assert(vf_str_eq(name, x->func), "C12/the function executed is the one bound to the name in the call");
    vf_assert(x->runs == 0, "C12/a call is executed once");
    vf_assert(!env::holdsAny() && !anyQueueLocked(), "C12/no lock is held while a function is executed");
    if (x->argsArray) vf_assert(args.type == mp::type::ARRAY && args.via.array.size == (uint32_t)x->argsSize && args.via.array.ptr == (mp::object*)&argBytes, "C12/the function gets the arguments of the call");
    else vf_assert(args.type == mp::type::BOOLEAN && args.via.boolean == x->argsFlag, "C12/the function gets the arguments of the call");
    x->runs++;
    x->failed = true;
    if (vf_bool("the function throws an exception")) throw std::runtime_error("function failed");
    if (vf_bool("the function throws something else")) throw 7;
    x->failed = false;
    mp::object o;
    if (!vf_bool("the result is nil")) { o.type = mp::type::POSITIVE_INTEGER; x->resU = vf_range("result", 0, 0x7fffffffffffffffLL); o.via.u64 = (uint64_t)x->resU; }
    x->resType = o.type;
    return std::unique_ptr<mp::object_handle>(new mp::object_handle(o, mp::unique_ptr<mp::zone>()));
}
}  // namespace g

typedef CallDispatcher::AdaptorType Adaptor;
template <> void vfm<Adaptor>::access(const void*, bool) {}
template <> void vfm<Adaptor>::arbitraryKey(const void*, std::string& k) { k = vf_string("another function"); }
template <> void vfm<Adaptor>::arbitrary(const void*, const std::string& k, Adaptor& a) {
    std::string name = k;
    a = [name](const mp::object& args) { return g::run(name, args); };
}
template <> void vfm<Adaptor>::looked(const void*, const std::string& k, bool present) {
    if (x->mode != 0 || !x->cur || !vf_str_eq(k, x->func)) return;
    x->looked = true;
    x->found = present;
}
template <> void vfm<Adaptor>::erased(const void*, const std::string& k) { vf_assert(x->mode != 0, "C14/serving a call does not unbind anything"); }
template <> void vfm<Adaptor>::visited(const void*, const std::string&, Adaptor&) {}
template <> void vfm<Adaptor>::cleared(const void*) { vf_assert(x->mode == 1, "C14/functions are only dropped at shutdown"); x->cleared = true; }

int64_t TimeUtil::GetCurrentTimestamp() { return w->now; }
extern "C" mp::sbuffer vfx__ZNK6veigar6detail8Response7getDataEv(const Response* p) {
    mp::sbuffer b(0);
    int64_t n = vf_range("packed size", 1, VF_BIG);
    b.m_data = (char*)malloc((size_t)n);
    b.m_size = b.m_alloc = (size_t)n;
    x->packed++;
    x->packId = p->callId_;
    x->packErr = p->error_ && p->error_->get().type == mp::type::STR;
    x->packRes = p->result_ && !p->error_;
    if (x->packRes) { x->packType = p->result_->get().type; if (x->packType == mp::type::POSITIVE_INTEGER) x->packU = (int64_t)p->result_->get().via.u64; }
    x->data = b.m_data; x->size = n;
    return b;
}
namespace veigar {
bool Veigar::sendResponse(const std::string& channel, const uint8_t* buf, size_t n, std::string& err) {
    vf_assert((g::Ghost*)this == w && x->cur && x->sent == 0, "C12/a call is answered once");
    vf_assert(!env::holdsAny() && !g::anyQueueLocked(), "C12/no lock is held while a response is sent");
    vf_assert(vf_str_eq(channel, x->caller), "C12/the response goes to the caller named in the call");
    vf_assert(x->packed >= 1 && buf == x->data && vf_live(buf) && (int64_t)n == x->size, "C12,C15/the packed response is sent");
    vf_assert(vf_str_eq(x->packId, x->id), "C12/the response carries the id of the call");
    if (x->runs == 1 && !x->failed) {
        vf_assert(!x->packErr && x->packRes && x->packType == x->resType, "C12/the response carries the result");
        if (x->resType == mp::type::POSITIVE_INTEGER) vf_assert(x->packU == x->resU, "C12/the response carries the result");
    } else
        vf_assert(x->packErr, "C12/a call that was not executed or failed is answered with an error text");
    x->sent++;
    return vf_bool("response accepted");
}
}  // namespace veigar

namespace g {
static bool onOpen(Queue& q, const std::string& path, bool create) {
    vf_assert(create && x->mode == 1, "C17/the call queue of the instance is created");
    vf_assert(vf_str_eq(path, w->channel + "_call"), "C17,C12/the call queue carries the name of the channel");
    vf_assert(q.number == (int32_t)w->capacity && q.size == (int32_t)w->maxSize, "C04/the queue is created with the configured geometry");
    return true;
}
static void onClose(Queue& q) { vf_assert(!q.closed && x->mode == 1, "C17/a queue is closed once"); vf_assert(w->threads == 0, "C17/the threads have ended before their queue is closed"); }
static void onLockTried(Queue& q, bool ok) {
    vf_assert(!env::holdsAny(), "C08/no other lock is held while waiting for the queue");
    lockTried(ok);
}
static void onUnlock(Queue& q) {}
static void onSpace(Queue& q, int64_t n, bool ok, bool waitable) {}
static void onPush(Queue& q, const void* d, int64_t n) { vf_assert(false, "C12/a receiver pushes nothing"); }
static void onPushed(Queue& q, bool ok) {}
static void onNotify(Queue& q) {}
static void settle(Queue& q) {
    handled();
    receivedAll(q);
    clearRecv();
    q.notifies = 0;
    r->stage = 0; r->left = r->dirty = false;
    w->throwBudget = 1; w->thrown = false;
}
static bool onWaitForRead(Queue& q, int64_t ms) {
    if (w->probing) { w->probed = &q; x->probeForever = ms < 0; throw Probe(); }
#ifndef VF_VERIFIER
    settle(q);
#endif
    vf_assert(!env::holdsAny() && !anyQueueLocked(), "C08/nothing is locked while waiting for a message");
    r->waited = true;
    vf_assert(!r->signal, "C09/one signal is consumed for a message");
    if (vf_bool("the dispatcher stops")) { vfa_stop(x->d)->store(true); r->stopSeen = true; }
    r->signal = vf_bool("signal");
    return r->signal;
}
static int64_t onNumber(Queue& q) { return r->waiting; }
static bool onPop(Queue& q, void* buf, int64_t n, int64_t& written) { return popInto(q, buf, n, written); }
static bool onEventWait(const void* e, int64_t ms) { return false; }
static bool onEventQuery(const void* e, bool cancelled) { return false; }
static void onEvent(const void* e, EventOp op) {}
static void onOutcome(int kind, const void* who, const CallResult& c) { vf_assert(false, "C11/a dispatcher of calls completes no call"); }
static void onThreadStart(const void* p) {}
static void onJoin() {
    vf_assert(vfa_stop(x->d)->load(), "C17/the threads are told to stop before they are awaited");
    if (x->probeForever) vf_assert(w->q[0].notifies >= w->threads, "C17/every waiting thread is woken before it is awaited");
}
}  // namespace g

extern "C" {
bool vfx_loop_idle() { return x && x->mode == 0 && !w->probing && !g::anyQueueLocked() && !env::holdsAny(); }
void vfx_loop_check() {
    r->waited = true;        // the loop has been entered
    g::handled();
    x->d->funcs_.forget(true);
    if (r->stage == 1) {     // further objects of the message may follow
        w->throwBudget = 0; w->thrown = false;
        return;
    }
    g::receivedAll(w->q[0]);
    g::clearRecv();
    w->q[0].notifies = 0;
    r->stage = 0; r->left = r->dirty = false;
    w->throwBudget = 1; w->thrown = false;
}
void vfx_loop_havoc() {
    r->cap = vf_range("room", 0, (int64_t)1 << 47);
    vfa_stop(x->d)->store(vf_bool("the dispatcher is stopping"));
    r->objects = r->stage == 1 && vf_bool("an object of the message has been decoded") ? 1 : 0;
    if (r->stage == 1) r->size = vf_range("message size", 0, (int64_t)1 << 46);
}
}

static void setup(CallDispatcher* d, g::Ghost* gh, g::Work* wk, g::Recv* rv, int mode) {
    g::initGhost(gh);
    g::initRecv(rv);
    x = wk;
    x->d = d; x->mode = mode; x->elems = nullptr;
    x->probeForever = x->cleared = false;
    g::clearCur();
    g::configure();
    d->funcs_.open = true;
}

VF_HARNESS(call_loop) {
    g::Ghost gh; g::Work wk; g::Recv rv;
    CallDispatcher d((Veigar*)&gh);
    setup(&d, &gh, &wk, &rv, 0);
    *vfa_queue(&d) = g::makeQueue(w->channel + "_call");
    d.init_ = true;
    w->throwBudget = 1;
    d.dispatchThreadProc();
    g::ended(vfa_stop(&d)->load());
    if (vfa_stop(&d)->load()) vf_cover("call_loop:stopped");
    g::settle(w->q[0]);
}

VF_HARNESS(call_init) {
    g::Ghost gh; g::Work wk; g::Recv rv;
    CallDispatcher d((Veigar*)&gh);
    setup(&d, &gh, &wk, &rv, 1);
    if (vf_bool("stopped before")) vfa_stop(&d)->store(true);
    bool ok = d.init();
    vf_assert(ok == d.isInit(), "C17/init reports whether the dispatcher runs");
    if (!ok) {
        vf_assert(gh.threadFailed || gh.createFailed || gh.thrown, "C17/init fails only when a step of it failed");
        vf_assert(gh.threads == 0, "C17/a failed init leaves no thread");
        for (int i = 0; i < gh.nq; i++) vf_assert(!gh.q[i].created, "C17/a failed init leaves no queue");
        d.uninit();
        vf_assert(!d.isInit() && gh.threads == 0, "C17/uninit after a failed init is harmless");
        vf_cover("call_init:failed");
    } else {
        vf_assert(!gh.threadFailed && gh.threads == VEIGAR_DISPATCHER_THREAD_NUMBER, "C17/init succeeds when every thread runs");
        vf_assert(gh.nq == 1 && gh.q[0].created && d.messageQueue().get() == gh.q[0].p, "C17/the call queue exists");
        vf_assert(gh.probed == &gh.q[0], "C17/the threads serve the call queue");
        vf_assert(!vfa_stop(&d)->load(), "C17/a started dispatcher is not stopped");
        int n = gh.threads;
        bool again = d.init();
        vf_assert(!x->cleared, "C14/starting drops no function");
        vf_assert(again && gh.threads == n && gh.nq == 1, "C17/repeating init starts nothing");
        d.uninit();
        vf_assert(gh.threads == 0 && !d.isInit(), "C17/uninit ends every thread");
        vf_assert(d.funcs_.count(vf_string("a function")) == 0, "C14/no function is callable after uninit");
        vf_assert(gh.q[0].closed && !d.messageQueue(), "C17/uninit releases the call queue");
        vf_cover("call_init:ok");
        d.uninit();
        vf_assert(!d.isInit(), "C17/uninit is harmless when repeated");
        ok = d.init();
        vf_assert(ok == d.isInit(), "C17/init reports whether the dispatcher runs");
        if (ok) {
            vf_assert(gh.threads == n && gh.q[gh.nq - 1].created && d.messageQueue().get() == gh.q[gh.nq - 1].p && !vfa_stop(&d)->load(), "C17/the dispatcher can be started again");
            vf_cover("call_init:again");
            for (auto& t : *vfa_workers(&d)) *(uint64_t*)&t = 0;   // (the harness does not run them)
        } else
            vf_assert(gh.threads == 0, "C17/a failed init leaves no thread");
    }
}
