/* Contracts of the instance (class Veigar): init / uninit over its three components, call ids, handing calls and responses to the
 * sender, delegation to the registry.  The components are stubs that follow the contracts proved in the units call, resp and
 * sender: init reports whether the component runs and, when it fails, leaves nothing behind. */
#include "thread_env.h"
#include <new>
#include <stdexcept>
#include <cstring>
#include <cstdlib>
#include "veigar/veigar.h"
#include "sender.h"
#include "resp_dispatcher.h"
#include "message_queue.h"
#include "time_util.h"
#include "uuid.h"
#include "log.h"
using namespace veigar;
using detail::CallDispatcher;
namespace mp = veigar_msgpack;

extern "C" {
std::string* vfa_uuid(Veigar* v);
std::atomic<uint32_t>* vfa_counter(Veigar* v);
void* vfa_memory(Veigar* v, int64_t* n);
std::shared_ptr<RespDispatcher>* vfa_resp(Veigar* v);
std::shared_ptr<Sender>* vfa_sender(Veigar* v);
}
#ifdef VF_VERIFIER
#define VF_BIG ((int64_t)1 << 46)
#else
#define VF_BIG ((int64_t)1 << 12)
#endif

namespace g {
enum { CALL, RESP, SEND };
struct Comp { const void* p; bool up; int starts; bool failed; };
struct World {
    env::Threads th;
    Comp c[3]; int alive[3];
    int queueMem[2];
    std::string uuid;
    int64_t now;
    // payloads
    int64_t mallocs, frees; bool mallocFailed;
    // handing over
    int added; bool isCall;
    std::string channel, callId; int8_t meta; const void* who; bool cb;
    const uint8_t* src; const uint8_t* copy; int64_t n; uint8_t* data;
    int64_t timeout, start, handedN;
    bool hasBuffer;
    // delegation
    std::string unbound; int unbinds; std::string released; int releases;
    // call ids
    Veigar* v; bool armed, otherRan; std::string func2, id2;
};
static World* w;
static void init(World* x) {
    w = x;
    env::initThreads(&x->th);
    for (int i = 0; i < 3; i++) { x->c[i].p = nullptr; x->c[i].up = x->c[i].failed = false; x->c[i].starts = 0; x->alive[i] = 0; }
    x->now = vf_range("now", 0, (int64_t)1 << 60);
    x->mallocs = x->frees = 0; x->mallocFailed = false;
    x->added = 0; x->isCall = false; x->meta = 0; x->who = nullptr; x->cb = false; x->src = x->copy = nullptr; x->data = nullptr; x->n = 0;
    x->timeout = x->start = x->handedN = 0; x->hasBuffer = false;
    x->unbinds = x->releases = 0;
    x->v = nullptr; x->armed = x->otherRan = false;
}
static void born(int k, const void* p) {
    vf_assert(!w->c[k].up, "C17/a running component is not replaced");
    w->c[k].p = p; w->c[k].up = false; w->alive[k]++;
}
static void died(int k, const void* p) {
    if (w->c[k].p == p) { vf_assert(!w->c[k].up, "C17/a component is stopped before it is destroyed"); w->c[k].p = nullptr; }
    w->alive[k]--;
}
static bool start(int k, const void* p, const char* n) {
    vf_assert(w->c[k].p == p, "C17/a component exists when it is started");
    if (w->c[k].up) return true;
    bool ok = vf_bool(n);
    w->c[k].up = ok;
    if (ok) { if (w->c[k].starts < 9) w->c[k].starts++; } else w->c[k].failed = true;
    return ok;
}
static void stop(int k, const void* p) {
    vf_assert(w->c[k].p == p, "C17/a component exists when it is stopped");
    w->c[k].up = false;
}
static bool up(int k, const void* p) {
    vf_assert(w->c[k].p == p, "C17/a component exists when it is asked for its state");
    return w->c[k].up;
}
static MessageQueue* queue(int k) { return (MessageQueue*)&w->queueMem[k]; }
static void handed(bool call) {
    vf_assert(w->added == 0, "C10,C12/a message is handed over once");
    vf_assert(w->c[SEND].up, "C10,C12,C17/a message is only handed to a running sender");
    w->added++; w->isCall = call;
}
template <class M>
static void payload(const M& m, int64_t n) {
    w->data = (uint8_t*)m.data;
    w->handedN = (int64_t)m.dataSize;
    w->timeout = m.timeout; w->start = m.startCallTimePoint;
    w->channel = m.channel;
    vf_assert((int64_t)m.dataSize == n, "C10,C12,C15/the payload has the length of the message");
    vf_assert(m.data != nullptr && vf_live(m.data) && (const uint8_t*)m.data != w->src, "C15/the payload is a private copy");
    if (n > 0) {
        int64_t i = vf_range("position", 0, VF_BIG);
        vf_assume(i < n);
        vf_assert(((const uint8_t*)m.data)[i] == w->copy[i], "C10,C12,C15/the payload is an exact copy of the message");
    }
}
}  // namespace g
using g::w;

namespace veigar {
void log(const char*, ...) {}
int64_t TimeUtil::GetCurrentTimestamp() {
    w->now += vf_range("time passes", 0, 1 << 30);
    return w->now;
}
std::string UUID::Create() { return w->uuid; }

namespace detail {
CallDispatcher::CallDispatcher(Veigar* v) noexcept { g::born(g::CALL, this); veigar_ = v; }
CallDispatcher::~CallDispatcher() noexcept { g::died(g::CALL, this); }
bool CallDispatcher::init() { return g::start(g::CALL, this, "call dispatcher starts"); }
bool CallDispatcher::isInit() const { return g::up(g::CALL, this); }
void CallDispatcher::uninit() { g::stop(g::CALL, this); }
std::shared_ptr<MessageQueue> CallDispatcher::messageQueue() {
    return g::up(g::CALL, this) ? std::shared_ptr<MessageQueue>(std::shared_ptr<void>(), g::queue(0)) : nullptr;
}
void CallDispatcher::unbind(const std::string& n) { w->unbinds++; w->unbound = n; }
bool CallDispatcher::isFuncNameExist(const std::string& n) { return funcs_.find(n) != funcs_.end(); }
}  // namespace detail
RespDispatcher::RespDispatcher(Veigar*) noexcept { g::born(g::RESP, this); }
bool RespDispatcher::init() { return g::start(g::RESP, this, "response dispatcher starts"); }
bool RespDispatcher::isInit() const { return g::up(g::RESP, this); }
void RespDispatcher::uninit() { g::stop(g::RESP, this); }
std::shared_ptr<MessageQueue> RespDispatcher::messageQueue() {
    return g::up(g::RESP, this) ? std::shared_ptr<MessageQueue>(std::shared_ptr<void>(), g::queue(1)) : nullptr;
}
void RespDispatcher::releaseCall(const std::string& id) { w->releases++; w->released = id; }
Event::Event(bool) noexcept {}
Sender::Sender(Veigar*) noexcept { g::born(g::SEND, this); }
bool Sender::init(std::shared_ptr<RespDispatcher> d, std::shared_ptr<MessageQueue> c, std::shared_ptr<MessageQueue> r) {
    if (!w->c[g::SEND].up) {
        vf_assert(d && d.get() == w->c[g::RESP].p, "C10,C17/the sender registers calls with the response dispatcher of the instance");
        vf_assert(w->c[g::CALL].up && w->c[g::RESP].up, "C17/the sender starts when its queues exist");
        vf_assert(c.get() == g::queue(0) && r.get() == g::queue(1), "C10,C17/the sender uses the queues of the instance");
    }
    return g::start(g::SEND, this, "sender starts");
}
bool Sender::isInit() const { return g::up(g::SEND, this); }
void Sender::uninit() { g::stop(g::SEND, this); }
void Sender::addCall(const CallMeta& m) {
    g::handed(true);
    g::payload(m, w->n);
    w->callId = m.callId;
    w->meta = m.resultMeta.metaType;
    w->who = m.resultMeta.p ? m.resultMeta.p->s.get() : nullptr;
    w->cb = (bool)m.resultMeta.cb;
}
void Sender::addResp(const RespMeta& m) { g::handed(false); g::payload(m, w->n); }
}  // namespace veigar

extern "C" {
void vfx__ZN6veigar6SenderD2Ev(Sender* s) { g::died(g::SEND, s); }
void vfx__ZN6veigar6SenderD1Ev(Sender* s) { g::died(g::SEND, s); }
void vfx__ZN6veigar14RespDispatcherD2Ev(RespDispatcher* s) { g::died(g::RESP, s); }
void vfx__ZN6veigar14RespDispatcherD1Ev(RespDispatcher* s) { g::died(g::RESP, s); }
void* vfx_malloc(size_t n) {
    if (vf_bool("malloc fails")) { w->mallocFailed = true; return nullptr; }
    w->mallocs++;
    return vf_count_malloc(n);
}
void vfx_free(void* p) { if (p) w->frees++; vf_count_free(p); }
void vfx_watch() {
    if (!w->armed || env::holdsAny()) return;
    w->armed = false;
    if (!w->otherRan && vf_bool("another thread issues a call now")) {
        w->otherRan = true;
        w->id2 = w->v->getNextCallId(w->func2);
    }
    w->armed = true;
}
}

// the stand-ins of the containers
typedef CallDispatcher::AdaptorType Adaptor;
template <> void vfm<Adaptor>::access(const void*, bool) {}
template <> void vfm<Adaptor>::arbitraryKey(const void*, std::string& k) { k = vf_string("another function"); }
template <> void vfm<Adaptor>::arbitrary(const void*, const std::string&, Adaptor& a) { a = [](const mp::object&) { return std::unique_ptr<mp::object_handle>(); }; }
template <> void vfm<Adaptor>::looked(const void*, const std::string&, bool) {}
template <> void vfm<Adaptor>::erased(const void*, const std::string&) { vf_assert(false, "C14/nothing is unbound"); }
template <> void vfm<Adaptor>::visited(const void*, const std::string&, Adaptor&) {}
template <> void vfm<Adaptor>::cleared(const void*) {}
template <> void vfm<ResultMeta>::access(const void*, bool) {}
template <> void vfm<ResultMeta>::arbitraryKey(const void*, std::string&) {}
template <> void vfm<ResultMeta>::arbitrary(const void*, const std::string&, ResultMeta&) {}
template <> void vfm<ResultMeta>::looked(const void*, const std::string&, bool) {}
template <> void vfm<ResultMeta>::erased(const void*, const std::string&) {}
template <> void vfm<ResultMeta>::visited(const void*, const std::string&, ResultMeta&) {}
template <> void vfm<ResultMeta>::cleared(const void*) {}
struct VfShared { int id; bool set; };
namespace std {
promise<CallResult>::promise() : s(make_shared<VfShared>()) { s->id = 0; s->set = false; }
future<CallResult> promise<CallResult>::get_future() { future<CallResult> f; f.s = s; return f; }
void promise<CallResult>::set_value(CallResult&&) { vf_assert(false, "C10/an accepted call is not completed by handing it over"); }
}

// ---- init and uninit
static void state(Veigar& v, bool running, const std::string& name, uint32_t cap, uint32_t size) {
    vf_assert(v.isInit() == running, "C17/an instance reports whether it runs");
    for (int k = 0; k < 3; k++) vf_assert(w->c[k].up == running, "C17/all components of a running instance run, none of a stopped one");
    if (running) {
        vf_assert(w->alive[g::RESP] == 1 && w->alive[g::SEND] == 1, "C17/a running instance has one sender and one response dispatcher");
        vf_assert(vf_str_eq(v.channelName(), name), "C17/the channel is the one that was asked for");
        vf_assert(v.msgQueueCapacity() == cap && v.expectedMsgMaxSize() == size, "C04,C17/the geometry is the one that was asked for");
        vf_assert(!name.empty(), "C17/a channel has a name");
    } else
        vf_assert(w->alive[g::RESP] == 0 && w->alive[g::SEND] == 0, "C17/a stopped instance keeps nothing");
}
static bool start(Veigar& v, std::string& name, uint32_t& cap, uint32_t& size) {
    name = vf_string("channel");
    w->uuid = vf_string("uuid");
    cap = (uint32_t)vf_range("capacity", 0, 0xffffffffLL);
    size = (uint32_t)vf_range("expected size", 0, 0xffffffffLL);
    for (int k = 0; k < 3; k++) w->c[k].failed = false;
    bool ok = v.init(name, cap, size);
    bool failed = name.empty() || w->uuid.empty();
    for (int k = 0; k < 3; k++) failed = failed || w->c[k].failed;
    vf_assert(ok == !failed, "C17/init succeeds exactly when every step does");
    state(v, ok, name, cap, size);
    if (!ok) vf_assert(v.channelName().empty(), "C17/a failed init leaves no channel");
    return ok;
}
VF_HARNESS(v_init) {
    g::World wd; g::init(&wd);
    {
        Veigar v;
        std::string name, name2; uint32_t cap, size, cap2, size2;
        vf_assert(!v.isInit(), "C17/a new instance does not run");
        bool ok = start(v, name, cap, size);
        if (ok) {
            name2 = vf_string("another channel");
            cap2 = (uint32_t)vf_range("capacity", 0, 0xffffffffLL);
            size2 = (uint32_t)vf_range("expected size", 0, 0xffffffffLL);
            int st = w->c[0].starts + w->c[1].starts + w->c[2].starts;
            bool again = v.init(name2, cap2, size2);
            vf_assert(again == vf_str_eq(name, name2), "C17/repeating init reports success only for the same channel");
            vf_assert(w->c[0].starts + w->c[1].starts + w->c[2].starts == st, "C17/repeating init starts nothing");
            state(v, true, name, cap, size);
            vf_cover("v_init:running");
        } else
            vf_cover("v_init:failed");
        v.uninit();
        state(v, false, name, cap, size);
        if (vf_bool("uninit is repeated")) {
            v.uninit();
            state(v, false, name, cap, size);
        }
        if (start(v, name, cap, size)) {
            vf_cover("v_init:restarted");
            v.uninit();
            state(v, false, name, cap, size);
        }
    }
    for (int k = 0; k < 3; k++) vf_assert(w->alive[k] == 0, "C17/a destroyed instance keeps nothing");
}

// ---- handing over
static void running(Veigar& v) {
    std::string name; uint32_t cap, size;
    if (vf_bool("not initialised")) return;
    bool ok = start(v, name, cap, size);
    vf_assume(ok);
}
static void fill(uint8_t*& p, int64_t n) {
    p = vf_alloc(n);
    vf_fill_bytes("message", p, n);
    w->src = p; w->n = n;
    w->copy = (const uint8_t*)vf_snapshot(p, n);
}
static void afterwards(bool ok, bool wasUp, int64_t t0, const std::string& target) {
    vf_assert(ok == (w->added == 1), "C10,C12/a message is reported as accepted exactly when it was handed over");
    vf_assert(ok || !wasUp || w->mallocFailed, "C10,C12/a running instance accepts messages");
    if (ok) {
        vf_assert(vf_str_eq(w->channel, target), "C10,C12/the message goes to its target");
        vf_assert(w->start >= t0 && w->start <= w->now, "C16/the timeout starts when the message is handed over");
        vf_assert(vf_live(w->data) && w->mallocs == w->frees + 1, "C15/the payload belongs to the sender");
        vf_count_free(w->data);
    } else
        vf_assert(w->mallocs == w->frees, "C15/a message that was not accepted leaves no payload behind");
}
VF_HARNESS(v_sendcall) {
    g::World wd; g::init(&wd);
    Veigar v;
    running(v);
    bool wasUp = v.isInit();
    int64_t t0 = w->now;
    std::string target = vf_string("target"), id = vf_string("call id"), fn = vf_string("function"), err;
    uint32_t ms = (uint32_t)vf_range("timeout ms", 0, 0xffffffffLL);
    ResultMeta rm;
    rm.metaType = (int8_t)vf_range("meta type", 0, 1);
    if (rm.metaType == 0) rm.p = std::make_shared<std::promise<CallResult>>();
    else rm.cb = [](const CallResult&) { vf_assert(false, "C10/an accepted call is not completed by handing it over"); };
    std::shared_ptr<mp::sbuffer> b;
    uint8_t* p = nullptr;
    if (vf_bool("a message")) {
        b = std::make_shared<mp::sbuffer>(0);
        int64_t n = vf_range("size", 0, VF_BIG);
        fill(p, n);
        b->m_data = (char*)p; b->m_size = b->m_alloc = (size_t)n;
    }
    bool ok = v.sendCall(target, ms, b, id, fn, rm, err);
    afterwards(ok, wasUp, t0, target);
    if (ok) {
        vf_assert(w->isCall, "C10/a call is handed over as a call");
        vf_assert(w->timeout == (int64_t)ms * 1000, "C16/the timeout is the requested one");
        vf_assert(vf_str_eq(w->callId, id), "C10/the call keeps its id");
        vf_assert(w->meta == rm.metaType && w->who == (rm.p ? rm.p->s.get() : nullptr) && w->cb == (bool)rm.cb, "C10/the call keeps its promise or callback");
        vf_cover("v_sendcall:accepted");
    } else if (wasUp)
        vf_cover("v_sendcall:refused");
    if (b) b->m_data = nullptr;
    v.uninit();
}
VF_HARNESS(v_sendresp) {
    g::World wd; g::init(&wd);
    Veigar v;
    running(v);
    bool wasUp = v.isInit();
    int64_t t0 = w->now;
    std::string target = vf_string("target"), err;
    int64_t n = vf_range("size", 0, VF_BIG);
    uint8_t* p = nullptr;
    fill(p, n);
    bool ok = v.sendResponse(target, p, (size_t)n, err);
    afterwards(ok, wasUp, t0, target);
    if (ok) {
        vf_assert(!w->isCall, "C12/a response is handed over as a response");
        vf_assert(w->timeout == (int64_t)VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT * 1000, "C12,C16/a response waits as long as configured");
        vf_cover("v_sendresp:accepted");
    }
    v.uninit();
}

// ---- call ids
#ifndef VF_VERIFIER
#include <set>
#include <thread>
static void stress(Veigar& v) {      // several threads really issue calls
    enum { T = 4, N = 4000 };
    std::vector<std::string> ids[T];
    env::real = true;
    {
        std::vector<std::thread> ts;
        for (int t = 0; t < T; t++) ts.emplace_back([&, t]() { for (int i = 0; i < N; i++) ids[t].push_back(v.getNextCallId("f")); });
        for (auto& t : ts) t.join();
    }
    env::real = false;
    std::set<std::string> all;
    for (auto& l : ids) for (auto& i : l) vf_assert(all.insert(i).second, "C13/two calls never carry the same id (several threads)");
}
#endif
VF_HARNESS(v_callid) {
    g::World wd; g::init(&wd);
    Veigar v;
    w->v = &v;
    *vfa_uuid(&v) = vf_string("uuid");
#ifndef VF_VERIFIER
    if (vf_range("stress", 0, 1 << 20) == 1 << 20) stress(v);
#endif
    std::atomic<uint32_t>* c = vfa_counter(&v);
    if (c) *c = (uint32_t)vf_range("calls issued so far", 0, 0xffffffffLL);
    std::string f1 = vf_string("function");
    w->func2 = vf_string("another function");
    int64_t n; void* m = vfa_memory(&v, &n);
    vf_watch(m, n);
    w->armed = true;
    std::string id1 = v.getNextCallId(f1);
    w->armed = false;
    vf_assert(!id1.empty(), "C13/a call has an id");
    if (!w->otherRan) {
        int64_t k = vf_range("calls issued in between", 0, 0xfffffffeLL);
        if (c) *c = (uint32_t)((int64_t)*c + k);
        w->id2 = v.getNextCallId(w->func2);
        vf_cover("v_callid:later");
    } else
        vf_cover("v_callid:interleaved");
    vf_assert(!vf_str_eq(id1, w->id2), "C13/two calls never carry the same id");
}

// ---- registry
static int hit;
VF_HARNESS(v_names) {
    g::World wd; g::init(&wd);
    Veigar v;
    vf_assert(v.bindNames().empty(), "C14/a new instance has no functions");
    std::string n = vf_string("function");
    vf_assume(!n.empty());
    bool ok = v.bind(n, []() { hit++; });
    vf_assert(ok, "C14/binding a free name succeeds, a taken one is refused");
    std::vector<std::string> l = v.bindNames();
    vf_assert(l.size() == 1 && vf_str_eq(l[0], n), "C14/the list of names is exactly the bound ones");
    vf_cover("v_names:end");
}

VF_HARNESS(v_registry) {
    g::World wd; g::init(&wd);
    Veigar v;
    v.callDisp_->funcs_.open = true;
    std::string n = vf_string("function");
    bool had = v.callDisp_->funcs_.count(n) > 0;
    hit = 0;
    bool ok = v.bind(n, []() { hit++; });
    vf_assert(ok == (!n.empty() && !had), "C14/binding a free name succeeds, a taken one is refused");
    if (ok) {
        vf_assert(v.callDisp_->funcs_.count(n) == 1, "C14/a bound function can be called");
        mp::object args; args.type = mp::type::ARRAY; args.via.array.size = 0; args.via.array.ptr = nullptr;
        v.callDisp_->funcs_[n](args);
        vf_assert(hit == 1, "C12,C14/the function that was bound is the one that runs");
        vf_cover("v_registry:bound");
    }
    std::string u = vf_string("name to unbind");
    v.unbind(u);
    vf_assert(w->unbinds == 1 && vf_str_eq(w->unbound, u), "C14/exactly the named function is unbound");
    std::string id = vf_string("call id");
    v.releaseCall(id);
    vf_assert(w->releases == 0, "C10/releasing a call of an instance that does not run does nothing");
    w->c[g::SEND].p = nullptr;
    std::string name; uint32_t cap, size;
    if (start(v, name, cap, size)) {
        v.releaseCall(id);
        vf_assert(w->releases == 1 && vf_str_eq(w->released, id), "C10/exactly the named call is released");
        v.uninit();
        vf_cover("v_registry:released");
    }
    uint32_t ms = (uint32_t)vf_range("lock timeout", 0, 0xffffffffLL), was = v.timeoutOfRWLock();
    v.setTimeoutOfRWLock(ms);
    vf_assert(v.timeoutOfRWLock() == (ms > 0 ? ms : was), "C16/the lock timeout is the requested one");
}
