/* Contracts of issuing calls (asyncCall with a promise, asyncCall with a callback, syncCall): what is packed and handed over, and
 * that every call that is not handed over gets exactly one failure.  getNextCallId, sendCall, releaseCall, the packer of msgpack and
 * the promise are stubs that follow the contracts proved in the units inst and wire. */
#include "vf.h"
#include <new>
#include <stdexcept>
#include <string>
#include "veigar/veigar.h"
using namespace veigar;
namespace mp = veigar_msgpack;

namespace g {
enum Kind { ARR, INT, STR, BOOLE, OTHERK };
struct Tok { int kind; int64_t v; std::string s; };
enum { NT = 12 };
struct World {
    Veigar* v;
    std::string id, channel; int ids;
    // packed
    const void* stream; Tok t[NT]; int n; bool strOpen; int budget; bool thrown;
    // the call
    std::string target, func; uint32_t ms; int nargs; int64_t a; std::string s; bool callback;
    // outcome
    int sends; bool accepted; int outcomes; const void* who; bool cbSet;
    int64_t resErr; std::string resMsg; int64_t resV; bool resSet;
    int gets, releases;
};
static World* w;
static void init(World* x, Veigar* v) {
    w = x;
    x->v = v; x->ids = 0; x->stream = nullptr; x->n = 0; x->strOpen = false; x->budget = 1; x->thrown = false;
    x->channel = vf_string("own channel");
    x->sends = x->outcomes = x->gets = x->releases = 0; x->accepted = x->cbSet = x->resSet = x->callback = false; x->who = nullptr;
    x->resErr = x->resV = x->a = 0; x->nargs = 0;
    x->target = vf_string("target"); x->func = vf_string("function");
    x->ms = (uint32_t)vf_range("timeout ms", 0, 0xffffffffLL);
}
static void mayThrow() {
    if (w->budget > 0 && vf_bool("an allocation fails")) { w->budget--; w->thrown = true; throw std::bad_alloc(); }
}
static void put(const void* stream, int kind, int64_t v) {
    mayThrow();
    vf_assert(w->stream == nullptr || w->stream == stream, "C10/one message is packed");
    w->stream = stream;
    vf_assert(w->n < NT && !w->strOpen, "C10,C12/a call message has five elements");
    Tok& t = w->t[w->n++];
    t.kind = kind; t.v = v; t.s.clear();
    w->strOpen = kind == STR;
}
static bool str(int i, const std::string& s) { return w->t[i].kind == STR && vf_str_eq(w->t[i].s, s); }
static void outcome(const CallResult& r) {
    vf_assert(w->outcomes == 0, "C10/a call is completed once");
    vf_assert(!w->accepted, "C10/an accepted call is not completed when it is issued");
    vf_assert(r.errCode == ErrorCode::FAILED, "C10/a call that could not be handed over fails");
    w->outcomes++;
}
}  // namespace g
using g::w;

namespace veigar {
Veigar::Veigar() noexcept {}
Veigar::~Veigar() noexcept {}
std::string Veigar::channelName() const { g::mayThrow(); return w->channel; }
std::string Veigar::getNextCallId(const std::string& f) const {
    vf_assert(w->ids == 0, "C10,C13/a call gets one id");
    vf_assert(vf_str_eq(f, w->func), "C13/a call gets its own id");
    w->ids++;
    w->id = vf_string("call id");
    vf_assume(!w->id.empty());
    return w->id;
}
bool Veigar::sendCall(const std::string& channel, uint32_t ms, std::shared_ptr<mp::sbuffer> b, const std::string& id, const std::string& fn, const ResultMeta& m, std::string& err) {
    vf_assert(w->sends == 0, "C10/a call is handed over once");
    vf_assert(vf_str_eq(channel, w->target), "C10,C12/a call goes to its target");
    vf_assert(ms == w->ms, "C16/the timeout is the requested one");
    vf_assert(w->ids == 1 && vf_str_eq(id, w->id), "C10,C11,C13/a call is registered under its id");
    vf_assert(b && b.get() == w->stream, "C10,C12/the packed call is handed over");
    vf_assert(w->n == 6 + w->nargs && w->t[0].kind == g::ARR && w->t[0].v == 5, "C12/a call message has five elements");
    vf_assert(w->t[1].kind == g::INT && w->t[1].v == 0, "C12/a call message carries the call flag");
    vf_assert(g::str(2, w->id), "C11,C13/a call message carries its id");
    vf_assert(g::str(3, w->channel), "C11,C12/a call message names its caller");
    vf_assert(g::str(4, w->func), "C12/a call message names the function");
    vf_assert(w->t[5].kind == g::ARR && w->t[5].v == w->nargs, "C12/a call message carries its arguments");
    if (w->nargs) vf_assert(w->t[6].kind == g::INT && w->t[6].v == w->a && g::str(7, w->s), "C12/a call message carries its arguments");
    vf_assert(m.metaType == (w->callback ? 1 : 0), "C10/the result is delivered the way that was asked for");
    if (w->callback) vf_assert((bool)m.cb == w->cbSet, "C10/the callback is handed over with the call");
    else { vf_assert((bool)m.p, "C10/the promise is handed over with the call"); w->who = m.p->s.get(); }
    w->sends++;
    g::mayThrow();
    if (!vf_bool("call accepted")) {
        if (vf_bool("with a reason")) err = vf_string("reason");
        return false;
    }
    w->accepted = true;
    return true;
}
void Veigar::releaseCall(const std::string& id) {
    vf_assert(vf_str_eq(id, w->id), "C10,C11/only the call of the caller is released");
    if (w->accepted) vf_assert(w->gets == 1, "C10,C11/a call is released when its result was taken");
    w->releases++;
}
}  // namespace veigar

struct VfShared { int id; bool set; };
namespace std {
promise<CallResult>::promise() : s(make_shared<VfShared>()) { s->id = 0; s->set = false; }
future<CallResult> promise<CallResult>::get_future() { future<CallResult> f; f.s = s; return f; }
void promise<CallResult>::set_value(CallResult&& r) {
    if (s->set) throw std::logic_error("promise already satisfied");
    s->set = true;
    g::outcome(r);
    w->who = s.get();
    CallResult taken(std::move(r));
}
CallResult future<CallResult>::get() {
    vf_assert(valid() && w->gets == 0, "C10/the result is taken once");
    vf_assert(s.get() == w->who, "C10,C11/the result is that of the call");
    vf_assert(w->accepted || w->outcomes == 1, "C10/a result that is waited for will be there");
    w->gets++;
    CallResult r;
    if (w->outcomes == 1) { r.errCode = ErrorCode::FAILED; w->resErr = (int64_t)r.errCode; w->resMsg = vf_string("message"); r.errorMessage = w->resMsg; w->resSet = true; return r; }
    w->resErr = vf_range("result", 0, 2);
    w->resMsg = vf_string("message");
    w->resV = vf_range("value", 0, 0x7fffffffffffffffLL);
    w->resSet = true;
    r.errCode = (ErrorCode)w->resErr; r.errorMessage = w->resMsg;
    mp::object o; o.type = mp::type::POSITIVE_INTEGER; o.via.u64 = (uint64_t)w->resV;
    r.obj.set(o);
    return r;
}
}

typedef mp::packer<mp::sbuffer> Packer;
static const void* of(Packer* p) { return &p->m_stream; }
extern "C" {
Packer& vfx__ZN14veigar_msgpack2v16packerINS0_7sbufferEE10pack_arrayEj(Packer* p, uint32_t n) { g::put(of(p), g::ARR, n); return *p; }
Packer& vfx__ZN14veigar_msgpack2v16packerINS0_7sbufferEE8pack_intEi(Packer* p, int v) { g::put(of(p), g::INT, v); return *p; }
Packer& vfx__ZN14veigar_msgpack2v16packerINS0_7sbufferEE9pack_int8Ea(Packer* p, int8_t v) { g::put(of(p), g::INT, v); return *p; }
Packer& vfx__ZN14veigar_msgpack2v16packerINS0_7sbufferEE10pack_uint8Eh(Packer* p, uint8_t v) { g::put(of(p), g::INT, v); return *p; }
Packer& vfx__ZN14veigar_msgpack2v16packerINS0_7sbufferEE9pack_trueEv(Packer* p) { g::put(of(p), g::BOOLE, 1); return *p; }
Packer& vfx__ZN14veigar_msgpack2v16packerINS0_7sbufferEE10pack_falseEv(Packer* p) { g::put(of(p), g::BOOLE, 0); return *p; }
Packer& vfx__ZN14veigar_msgpack2v16packerINS0_7sbufferEE8pack_nilEv(Packer* p) { g::put(of(p), g::OTHERK, 0); return *p; }
Packer& vfx__ZN14veigar_msgpack2v16packerINS0_7sbufferEE8pack_strEj(Packer* p, uint32_t n) { g::put(of(p), g::STR, n); return *p; }
Packer& vfx__ZN14veigar_msgpack2v16packerINS0_7sbufferEE13pack_str_bodyEPKcj(Packer* p, const char* s, uint32_t n) {
    g::mayThrow();
    vf_assert(of(p) == w->stream && w->strOpen && w->t[w->n - 1].v == (int64_t)n, "C12/a text of a call message is complete");
    w->t[w->n - 1].s.assign(s, n);
    w->strOpen = false;
    return *p;
}
}

static void setArgs() {
    w->nargs = 2;
    w->a = vf_range("argument", -0x80000000LL, 0x7fffffffLL);
    w->s = vf_string("text argument");
}
static void issued() {
    if (w->accepted) vf_assert(w->outcomes == 0, "C10/an accepted call is not completed when it is issued");
    else vf_assert(w->outcomes == 1 || w->callback, "C10/a call that could not be handed over gets exactly one failure");
    if (w->outcomes) vf_assert(!w->accepted, "C10/a call fails only when it was not handed over");
}
static void viaPromise(bool args) {
    g::World wd;
    Veigar v;
    g::init(&wd, &v);
    if (args) setArgs();
    std::shared_ptr<AsyncCallResult> r = args ? v.asyncCall(w->target, w->ms, w->func, (int)w->a, w->s) : v.asyncCall(w->target, w->ms, w->func);
    issued();
    vf_assert((bool)r, "C10/issuing a call yields a result to wait for");
    vf_assert(vf_str_eq(r->first, w->id), "C10,C13/the caller learns the id of its call");
    vf_assert(r->second.valid() && r->second.s.get() == w->who, "C10/the caller gets the future of its call");
}
VF_HARNESS(a_promise) { viaPromise(false); vf_cover("a_promise:end"); }
VF_HARNESS(a_promise_args) { viaPromise(true); vf_cover("a_promise_args:end"); }
VF_HARNESS(a_callback) {
    g::World wd;
    Veigar v;
    g::init(&wd, &v);
    w->callback = true;
    w->cbSet = vf_bool("a callback is given");
    ResultCallback cb;
    bool bad = vf_bool("the callback throws");
    if (w->cbSet) cb = [bad](const CallResult& r) { g::outcome(r); if (bad) throw std::runtime_error("callback"); };
    try {
        if (vf_bool("with arguments")) { setArgs(); v.asyncCall(cb, w->target, w->ms, w->func, (int)w->a, w->s); }
        else v.asyncCall(cb, w->target, w->ms, w->func);
    } catch (std::runtime_error&) {
        vf_assert(bad && w->outcomes == 1, "C10/issuing a call does not throw");
    }
    issued();
    if (w->cbSet && !w->accepted) vf_assert(w->outcomes == 1, "C10/a call that could not be handed over gets exactly one failure");
    vf_cover("a_callback:end");
}
VF_HARNESS(a_sync) {
    g::World wd;
    Veigar v;
    g::init(&wd, &v);
    bool args = vf_bool("with arguments");
    if (args) setArgs();
    CallResult r = args ? v.syncCall(w->target, w->ms, w->func, (int)w->a, w->s) : v.syncCall(w->target, w->ms, w->func);
    issued();
    if (w->accepted) {
        vf_assert(w->resSet && (int64_t)r.errCode == w->resErr && vf_str_eq(r.errorMessage, w->resMsg), "C10,C11/a synchronous call returns the result of its call");
        vf_assert(r.obj.get().type == mp::type::POSITIVE_INTEGER && (int64_t)r.obj.get().via.u64 == w->resV, "C10,C11/a synchronous call returns the result of its call");
        vf_cover("a_sync:accepted");
    } else {
        vf_assert(r.errCode == ErrorCode::FAILED, "C10/a synchronous call that could not be handed over fails");
        vf_cover("a_sync:failed");
    }
    vf_assert(w->releases == 1, "C10,C11/a finished synchronous call is released");
}
