/* Function registry: bind / unbind / names of CallDispatcher over an arbitrary registry, and the adaptors bind() builds around a
 * function (argument count and conversion, result), for functions with and without arguments and results. */
#include "vf.h"
#include "veigar/veigar.h"
#include "veigar/call_dispatcher.h"
#include "message_queue.h"
#include <cstdlib>
#include <cstring>
#include <stdexcept>
using namespace veigar;
using detail::CallDispatcher;
namespace mp = veigar_msgpack;
typedef CallDispatcher::AdaptorType Adaptor;
typedef std::unique_ptr<mp::object_handle> Result;

namespace g {
struct World {
    CallDispatcher* d;
    bool quiet;                       // bookkeeping of the harness itself
    std::string name, other;
    bool hadName, hadOther, emptied;
    // the newly bound function
    int runs; bool threw; int64_t a, b; std::string s; bool flag; int64_t res; std::string sres;
    // a function that was bound before
    int oldRuns; std::string oldName;
    bool mayErase;
    // names()
    int listed; std::string key;
};
static World* w;
static Result old(const std::string& name) {
    w->oldRuns++;
    w->oldName = name;
    return Result();
}
static void run() {
    w->runs++;
    if (vf_bool("the function throws")) { w->threw = true; throw 7; }
}
}  // namespace g
using g::w;

template <> void vfm<Adaptor>::access(const void*, bool) {}
template <> void vfm<Adaptor>::arbitraryKey(const void*, std::string& k) { k = vf_string("another function"); }
template <> void vfm<Adaptor>::arbitrary(const void*, const std::string& k, Adaptor& a) {
    std::string name = k;
    vf_assume(!name.empty());
    a = [name](const mp::object& args) { return g::old(name); };
}
template <> void vfm<Adaptor>::looked(const void*, const std::string& k, bool present) {}
template <> void vfm<Adaptor>::erased(const void*, const std::string& k) { vf_assert(w->quiet || (w->mayErase && vf_str_eq(k, w->name)), "C14/only the named function is unbound"); }
template <> void vfm<Adaptor>::cleared(const void*) { vf_assert(w->quiet, "C14/no other function is dropped"); }
template <> void vfm<Adaptor>::visited(const void*, const std::string& k, Adaptor&) {}

namespace veigar {
bool Veigar::sendResponse(const std::string&, const uint8_t*, size_t, std::string&) { return false; }
}

static bool bound(const std::string& n) { return w->d->funcs_.find(n) != w->d->funcs_.end(); }
// an existing binding still runs the function it was made with
static void callsOld(const std::string& n) {
    mp::object nil;
    w->oldRuns = 0;
    int r = w->runs;
    Result h = w->d->funcs_.find(n)->second(nil);
    vf_assert(w->oldRuns == 1 && w->runs == r && vf_str_eq(w->oldName, n), "C14/an existing binding keeps its function");
}

struct Args {
    mp::object o; mp::object e[3];
    int64_t size; bool array;
};
static void anyValue(mp::object& o) {
    int64_t k = vf_range("kind of value", 0, 5);
    if (k == 0) { o.type = mp::type::NIL; return; }
    if (k == 1) { o.type = mp::type::BOOLEAN; o.via.boolean = vf_bool("flag"); return; }
    if (k == 2) { o.type = mp::type::POSITIVE_INTEGER; int64_t top = vf_range("upper half", 0, 1); o.via.u64 = (uint64_t)vf_range("value", 0, 0x7fffffffffffffffLL) + (top ? 0x8000000000000000ULL : 0); return; }
    if (k == 3) { o.type = mp::type::NEGATIVE_INTEGER; o.via.i64 = vf_range("value", -0x7fffffffffffffffLL - 1, -1); return; }
    if (k == 4) { o.type = mp::type::FLOAT64; o.via.f64 = 0.5; return; }
    o.type = mp::type::STR;
    w->s = vf_string("text");
    o.via.str.size = (uint32_t)w->s.size();
    o.via.str.ptr = w->s.data();
}
static void anyArgs(Args& a, int n) {
    a.array = vf_bool("arguments are an array");
    a.size = 0;
    if (!a.array) {
        if (vf_bool("arguments are a map")) { a.o.type = mp::type::MAP; a.o.via.map.size = (uint32_t)vf_range("pairs", 0, 0xffffffffLL); a.o.via.map.ptr = nullptr; }
        return;
    }
    a.o.type = mp::type::ARRAY;
    a.size = vf_range("arguments", 0, 0xffffffffLL);
    a.o.via.array.size = (uint32_t)a.size;
    a.o.via.array.ptr = a.e;
    if (a.size == n)
        for (int i = 0; i < n; i++) anyValue(a.e[i]);
}
static bool inRange(const mp::object& o, int64_t lo, int64_t hi, int64_t& v) {
    if (o.type == mp::type::POSITIVE_INTEGER) { v = (int64_t)o.via.u64; return o.via.u64 <= (uint64_t)hi; }
    if (o.type == mp::type::NEGATIVE_INTEGER) { v = o.via.i64; return o.via.i64 >= lo; }
    return false;
}
struct Outcome { bool ok, std, own; Result r; };
static void invoke(const std::string& n, const Args& a, Outcome& out) {
    Adaptor& f = w->d->funcs_.find(n)->second;
    w->runs = 0; w->threw = false;
    out.ok = out.std = out.own = false;
    try {
        out.r = f(a.o);
        out.ok = true;
    } catch (std::exception&) {
        out.std = true;
    } catch (int i) {
        out.own = i == 7;
    }
}
static void judge(const Outcome& out, bool accepted) {
    vf_assert(w->runs == (accepted ? 1 : 0), "C12/a function runs exactly once if the arguments fit it, and not at all otherwise");
    if (!accepted) vf_assert(out.std, "C12/unfit arguments are reported as an error");
    else if (w->threw) vf_assert(out.own, "C12/an exception of the function is reported as it is");
    else vf_assert(out.ok && out.r, "C12/a function that returns has a result");
}
static bool isNil(const mp::object_handle& h) { return h.get().type == mp::type::NIL; }

static void setup(g::World* world, CallDispatcher* d) {
    w = world;
    w->d = d; w->quiet = w->mayErase = false;
    w->runs = w->oldRuns = w->listed = 0;
    w->threw = w->flag = false;
    w->a = w->b = w->res = 0;
    d->funcs_.open = true;
    w->name = vf_string("name");
    w->other = vf_string("other name");
    vf_assume(!vf_str_eq(w->name, w->other));
    w->hadName = bound(w->name);
    w->hadOther = bound(w->other);
}
template <class F>
static bool bindIt(F f) {
    bool ok = w->d->bind(w->name, f);
    vf_assert(ok == (!w->name.empty() && !w->hadName), "C14/binding is accepted exactly when the name is not empty and free");
    vf_assert(bound(w->name) == (ok || w->hadName), "C14/an accepted binding makes the name callable, a refused one changes nothing");
    vf_assert(bound(w->other) == w->hadOther, "C14/binding a name affects no other name");
    if (w->hadOther) callsOld(w->other);
    if (!ok && w->hadName) callsOld(w->name);
    return ok;
}
static void again() {     // a second binding under the same name is refused
    int r = w->runs;
    bool ok = w->d->bind(w->name, [] { w->flag = true; });
    vf_assert(!ok && bound(w->name), "C14/binding a taken name is refused");
}
static void finish() {
    w->quiet = true;
    w->d->funcs_.forget(false);
}

VF_HARNESS(bind_v0) {
    g::World world; CallDispatcher d(nullptr); setup(&world, &d);
    if (bindIt([] { g::run(); })) {
        again();
        Args a; anyArgs(a, 0);
        Outcome out; invoke(w->name, a, out);
        vf_assert(!w->flag, "C14/the binding made first stays in place");
        judge(out, a.array && a.size == 0);
        if (out.ok) { vf_assert(isNil(*out.r), "C12/a function without result answers nil"); vf_cover("bind_v0:ran"); }
        else if (out.std) vf_cover("bind_v0:refused");
    }
    finish();
}
VF_HARNESS(bind_v2) {
    g::World world; CallDispatcher d(nullptr); setup(&world, &d);
    if (bindIt([](int x, bool y) { w->a = x; w->b = y; g::run(); })) {
        Args a; anyArgs(a, 2);
        Outcome out; invoke(w->name, a, out);
        int64_t v = 0;
        bool fit = a.array && a.size == 2;
        if (fit) fit = inRange(a.e[0], -0x80000000LL, 0x7fffffffLL, v) && a.e[1].type == mp::type::BOOLEAN;
        judge(out, fit);
        if (fit) vf_assert(w->a == v && w->b == (a.e[1].via.boolean ? 1 : 0), "C12/the function gets exactly the given arguments");
        if (out.ok) { vf_assert(isNil(*out.r), "C12/a function without result answers nil"); vf_cover("bind_v2:ran"); }
        else if (out.std) vf_cover("bind_v2:refused");
    }
    finish();
}
static int64_t give() { g::run(); w->res = vf_range("result", -0x7fffffffffffffffLL - 1, 0x7fffffffffffffffLL); return w->res; }
VF_HARNESS(bind_r0) {
    g::World world; CallDispatcher d(nullptr); setup(&world, &d);
    if (bindIt(&give)) {
        Args a; anyArgs(a, 0);
        Outcome out; invoke(w->name, a, out);
        judge(out, a.array && a.size == 0);
        if (out.ok) {
            const mp::object& o = out.r->get();
            int64_t v = 0;
            vf_assert(inRange(o, -0x7fffffffffffffffLL - 1, 0x7fffffffffffffffLL, v) && v == w->res, "C12/the result is the value the function returned");
            vf_cover("bind_r0:ran");
        } else if (out.std) vf_cover("bind_r0:refused");
    }
    finish();
}
VF_HARNESS(bind_r2) {
    g::World world; CallDispatcher d(nullptr); setup(&world, &d);
    if (bindIt([](uint8_t x, const std::string& y) -> std::string { w->a = x; w->key = y; g::run(); w->sres = vf_string("result"); return w->sres; })) {
        Args a; anyArgs(a, 2);
        if (a.array && a.size == 2 && a.e[0].type == mp::type::STR) vf_end();      // (one text is enough)
        Outcome out; invoke(w->name, a, out);
        int64_t v = 0;
        bool fit = a.array && a.size == 2;
        if (fit) fit = inRange(a.e[0], 0, 255, v) && v >= 0 && a.e[1].type == mp::type::STR;
        judge(out, fit);
        if (fit) vf_assert(w->a == v && vf_str_eq(w->key, w->s), "C12/the function gets exactly the given arguments");
        if (out.ok) {
            const mp::object& o = out.r->get();
            vf_assert(o.type == mp::type::STR, "C12/the result is the value the function returned");
            std::string t(o.via.str.ptr, o.via.str.size);
            vf_assert(vf_str_eq(t, w->sres), "C12/the result is the value the function returned");
            vf_cover("bind_r2:ran");
        } else if (out.std) vf_cover("bind_r2:refused");
    }
    finish();
}

VF_HARNESS(unbind) {
    g::World world; CallDispatcher d(nullptr); setup(&world, &d);
    w->mayErase = true;
    d.unbind(w->name);
    w->mayErase = false;
    vf_assert(!bound(w->name), "C14/an unbound name is not callable");
    vf_assert(bound(w->other) == w->hadOther, "C14/unbinding a name affects no other name");
    if (w->hadOther) callsOld(w->other);
    if (w->hadName) vf_cover("unbind:removed"); else vf_cover("unbind:unknown");
    w->hadName = false;
    if (bindIt([] { g::run(); })) {
        Args a; a.o.type = mp::type::ARRAY; a.o.via.array.size = 0; a.o.via.array.ptr = nullptr; a.array = true; a.size = 0;
        Outcome out; invoke(w->name, a, out);
        judge(out, true);
        vf_cover("unbind:bound again");
    }
    finish();
}
VF_HARNESS(names) {
    g::World world; CallDispatcher d(nullptr); setup(&world, &d);
    std::string third = vf_string("third name");
    vf_assume(!vf_str_eq(third, w->name) && !vf_str_eq(third, w->other));
    bool hadThird = bound(third);
    d.funcs_.open = false;            // bounded: no more than these three
    std::vector<std::string> l = d.names();
    size_t n = (w->hadName ? 1 : 0) + (w->hadOther ? 1 : 0) + (hadThird ? 1 : 0);
    vf_assert(l.size() == n, "C14/the list of names has one entry for every bound function");
    int a = 0, b = 0, c = 0;
    for (size_t i = 0; i < l.size(); i++) {
        if (vf_str_eq(l[i], w->name)) a++;
        else if (vf_str_eq(l[i], w->other)) b++;
        else if (vf_str_eq(l[i], third)) c++;
    }
    vf_assert(a == w->hadName && b == w->hadOther && c == hadThird, "C14/the list of names is exactly the bound ones");
    vf_assert(bound(w->name) == w->hadName && bound(w->other) == w->hadOther, "C14/listing the names changes nothing");
    if (n == 3) vf_cover("names:three");
    if (n == 0) vf_cover("names:none");
    finish();
}
