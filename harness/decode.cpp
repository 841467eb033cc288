/* Decoding arbitrary bytes: the parser's loop is cut at its invariant, every iteration is verified for an arbitrary message, position and
 * parser state.  The zone is replaced by its contract (a block of the requested size; the zone itself is verified in the unit wirelen). */
#include "vf.h"
#include <string.h>
#include <stdexcept>
#include <new>
#include <string>
#include "veigar/veigar.h"
namespace mp = veigar_msgpack;
typedef mp::v2::detail::context<mp::unpacker> Ctx;
typedef Ctx::unpack_stack::stack_elem Elem;
typedef mp::v2::detail::create_object_visitor Visitor;

namespace d {
// the parser state and the open containers at the head of the loop that this harness is about
static uint32_t atState; static int open_; static int64_t kinds;
enum { MAXOPEN = 4 };
struct World {
    mp::unpacker* p; bool on; const char* start; int64_t len;
    // as at the head of the loop
    mp::object* top; uint32_t state; size_t trail;
    int open; int kind[MAXOPEN]; uint32_t rest[MAXOPEN]; uint8_t* blk[MAXOPEN]; uint8_t* old[MAXOPEN]; int64_t probe[MAXOPEN]; int64_t done[MAXOPEN];
};
static World* w;
static Ctx& ctx() { return *w->p; }
static Visitor& vis() { return *w->p; }
static int64_t filled(const Elem& e, int64_t size) {
    int64_t r = (int64_t)e.m_rest;
    return e.m_type == MSGPACK_CT_ARRAY_ITEM ? size - r : e.m_type == MSGPACK_CT_MAP_KEY ? 2 * (size - r) : 2 * (size - r) + 1;
}
static bool containerOk(const Elem& e, const mp::object& o, const mp::object* next) {
    if (e.m_type == MSGPACK_CT_ARRAY_ITEM) {
        int64_t n = o.via.array.size;
        return o.type == mp::type::ARRAY && (int64_t)e.m_rest <= n && vf_accessible(o.via.array.ptr, n * (int64_t)sizeof(mp::object)) && next == o.via.array.ptr + filled(e, n);
    }
    int64_t n = o.via.map.size;
    return o.type == mp::type::MAP && (int64_t)e.m_rest <= n && vf_accessible(o.via.map.ptr, n * (int64_t)sizeof(mp::object_kv)) && next == (mp::object*)o.via.map.ptr + filled(e, n);
}
// a value without elements, or a container that was opened
static bool complete(const mp::object& o) {
    switch (o.type) {
    case mp::type::NIL: case mp::type::BOOLEAN: case mp::type::POSITIVE_INTEGER: case mp::type::FLOAT32: case mp::type::FLOAT64: return true;
    case mp::type::NEGATIVE_INTEGER: return o.via.i64 < 0;
    case mp::type::STR: return o.via.str.size == 0 || vf_accessible(o.via.str.ptr, o.via.str.size);
    case mp::type::BIN: return o.via.bin.size == 0 || vf_accessible(o.via.bin.ptr, o.via.bin.size);
    case mp::type::EXT: return vf_accessible(o.via.ext.ptr, (int64_t)o.via.ext.size + 1);
    case mp::type::ARRAY: return o.via.array.size == 0 || vf_accessible(o.via.array.ptr, (int64_t)o.via.array.size * (int64_t)sizeof(mp::object));
    case mp::type::MAP: return o.via.map.size == 0 || vf_accessible(o.via.map.ptr, (int64_t)o.via.map.size * (int64_t)sizeof(mp::object_kv));
    default: return false;
    }
}
// what one iteration did to the open containers: nothing while a value is being read, one more when a container was opened, and after a value
// each container that has all its values is closed, from the inside
static void levelsOk(bool finished) {
    Ctx& c = ctx();
    std::vector<Elem>& s = c.m_stack.m_stack;
    int n = w->open;
    bool opened = false;
    if (finished || c.m_cs == MSGPACK_CS_HEADER) {
        opened = (w->top->type == mp::type::ARRAY && w->top->via.array.size > 0) || (w->top->type == mp::type::MAP && w->top->via.map.size > 0);
        if (opened) {
            bool array = w->top->type == mp::type::ARRAY;
            vf_assert(!finished && s.size() == (size_t)n + 1, "C20,C22/a container with elements waits for them");
            vf_assert(s[n].m_type == (array ? MSGPACK_CT_ARRAY_ITEM : MSGPACK_CT_MAP_KEY) && s[n].m_rest == (array ? w->top->via.array.size : w->top->via.map.size),
                      "C20,C22/a container waits for as many values as it announced");
        } else {
            while (n > 0) {
                if (w->kind[n - 1] == MSGPACK_CT_MAP_KEY) { w->kind[n - 1] = MSGPACK_CT_MAP_VALUE; break; }
                if (w->kind[n - 1] == MSGPACK_CT_MAP_VALUE) w->kind[n - 1] = MSGPACK_CT_MAP_KEY;
                if (--w->rest[n - 1] != 0) break;
                n--;
            }
            vf_assert(finished == (n == 0), "C20,C22/a value is delivered when it is complete");
        }
    }
    if (finished) return;
    if (!opened) vf_assert(s.size() == (size_t)n, "C20,C22/a container is closed when it has all its values");
    for (int i = 0; i < n; i++) vf_assert((int)s[i].m_type == w->kind[i] && s[i].m_rest == w->rest[i], "C20,C22/each value is counted once");
}
// what one iteration did to the values
static void valuesOk(bool finished) {
    if (!w->top) return;
    levelsOk(finished);
    if (finished || ctx().m_cs == MSGPACK_CS_HEADER) {
        vf_assert(complete(*w->top), "C20,C22/a value that was read is initialised and its contents can be accessed");
        if (w->state == MSGPACK_ACS_STR_VALUE) vf_assert(w->top->type == mp::type::STR && w->top->via.str.size == w->trail, "C20/a text has the announced length");
        if (w->state == MSGPACK_ACS_BIN_VALUE) vf_assert(w->top->type == mp::type::BIN && w->top->via.bin.size == w->trail, "C20/a binary has the announced length");
        if (w->state == MSGPACK_ACS_EXT_VALUE) vf_assert(w->top->type == mp::type::EXT && (size_t)w->top->via.ext.size + 1 == w->trail, "C20/an extension has the announced length");
    }
    for (int i = 0; i < w->open; i++)
        if (w->probe[i] < w->done[i]) vf_assert(w->blk[i][w->probe[i]] == w->old[i][w->probe[i]], "C20,C22/values that were read are not overwritten");
}
}
using d::w;

extern "C" {
// contract of the zone (unit wirelen, z_alloc): a new block of the requested size, or failure
void* vfx__ZN14veigar_msgpack2v14zone14allocate_alignEmm(mp::zone*, size_t size, size_t) {
    vf_assert(size <= 24ULL * 2 * 0xffffffffULL, "C22/no size overflows");
    if (vf_bool("no memory")) throw std::bad_alloc();
#ifndef VF_VERIFIER
    if (size > 1 << 24) throw std::bad_alloc();
#endif
    return vf_alloc((int64_t)size);
}
bool vfx_loop_idle() { return w && w->on && vf_loop_fn("::execute("); }
void vfx_loop_check() {
    Ctx& c = d::ctx();
    Visitor& v = d::vis();
    int64_t at = c.m_current - w->start;
    vf_assert(at >= 4 && at < w->len, "C22/the parser is inside the message");
    bool header = c.m_cs == MSGPACK_CS_HEADER;
    vf_assert(header || ((c.m_cs == MSGPACK_ACS_STR_VALUE || c.m_cs == MSGPACK_ACS_BIN_VALUE || c.m_cs == MSGPACK_ACS_EXT_VALUE) && c.m_trail > 0 && c.m_trail <= (c.m_cs == MSGPACK_ACS_EXT_VALUE ? 0x100000000ULL : 0xffffffffULL)),
              "C22/the parser reads a header or a value");
    std::vector<Elem>& s = c.m_stack.m_stack;
    size_t n = s.size();
    vf_assert(v.m_stack.size() == n + 1, "C20,C22/parser and visitor agree about the open containers");
    vf_assert(v.m_stack[0] == &v.m_obj, "C22/the outermost value has a place");
    for (size_t i = 0; i < n; i++) {
        vf_assert(s[i].m_rest > 0 && s[i].m_type >= MSGPACK_CT_ARRAY_ITEM && s[i].m_type <= MSGPACK_CT_MAP_VALUE, "C20,C22/an open container waits for values");
        vf_assert(d::containerOk(s[i], *v.m_stack[i], v.m_stack[i + 1]), "C20,C22/an open container has a place for each of its values");
    }
    d::valuesOk(false);
}
void vfx_loop_havoc() {
    Ctx& c = d::ctx();
    Visitor& v = d::vis();
    vf_modifies(&c.m_current, sizeof c.m_current);
    vf_modifies(&c.m_cs, sizeof c.m_cs);
    vf_modifies(&c.m_trail, sizeof c.m_trail);
    vf_modifies(&v.m_obj, sizeof v.m_obj);
    vf_modifies(&v.m_referenced, sizeof v.m_referenced);
    vf_modifies(&c.m_stack.m_stack, sizeof c.m_stack.m_stack);
    vf_modifies(c.m_stack.m_stack.data(), (d::MAXOPEN + 1) * sizeof(Elem));
    vf_modifies(&v.m_stack, sizeof v.m_stack);
    vf_modifies(v.m_stack.data(), (d::MAXOPEN + 2) * 8);
    c.m_current = w->start + vf_range("position", 4, 1LL << 33);
    vf_assume(c.m_current - w->start < w->len);
    c.m_cs = d::atState;
    c.m_trail = (size_t)vf_range("trail", 1, 1LL << 32);
    vf_assume(c.m_trail < (1ULL << 32) || c.m_cs == MSGPACK_ACS_EXT_VALUE);
    v.m_obj.type = mp::type::NIL;
    v.m_obj.via.u64 = (uint64_t)vf_range("value", 0, 1);
    v.m_referenced = vf_bool("referenced");
    c.m_stack.m_stack.clear();
    v.m_stack.resize(1);
    int64_t t = d::kinds;
    for (int i = 0; i < d::open_; i++, t /= 3) {
        int64_t size = vf_range("elements", 1, 0xffffffffLL);
        Elem e(t % 3 == 0 ? MSGPACK_CT_ARRAY_ITEM : t % 3 == 1 ? MSGPACK_CT_MAP_KEY : MSGPACK_CT_MAP_VALUE, (uint32_t)vf_range("values to come", 1, 0xffffffffLL));
        vf_assume((int64_t)e.m_rest <= size);
        w->kind[i] = (int)e.m_type;
        w->rest[i] = e.m_rest;
        bool array = t % 3 == 0;
        w->done[i] = d::filled(e, size) * (int64_t)sizeof(mp::object);
        w->blk[i] = vf_alloc((array ? size : 2 * size) * (int64_t)sizeof(mp::object));
        vf_fill_bytes("values so far", w->blk[i], w->done[i]);
        w->old[i] = (uint8_t*)vf_snapshot(w->blk[i], w->done[i]);
        w->probe[i] = vf_range("probe", 0, 1LL << 40);
        mp::object* o = v.m_stack.back();
        o->type = array ? mp::type::ARRAY : mp::type::MAP;
        if (array) { o->via.array.ptr = (mp::object*)w->blk[i]; o->via.array.size = (uint32_t)size; }
        else { o->via.map.ptr = (mp::object_kv*)w->blk[i]; o->via.map.size = (uint32_t)size; }
        c.m_stack.m_stack.push_back(e);
        v.m_stack.push_back((mp::object*)w->blk[i] + d::filled(e, size));
    }
    w->open = d::open_;
    w->top = v.m_stack.back();
    w->state = c.m_cs;
    w->trail = c.m_trail;
}
}

static void any(uint32_t state, int open, int64_t kinds) {
    d::atState = state; d::open_ = open; d::kinds = kinds;
    d::World wd;
    int64_t n = vf_range("message length", 1, 0xffffffffLL);
#ifndef VF_VERIFIER
    vf_assume(n <= 1 << 20);
#endif
    // room for the message from the start; growing the buffer is the subject of the unit wirelen
    mp::unpacker p(&mp::unpacker::default_reference_func, 0, (size_t)n + 4);
    p.reserve_buffer((size_t)n);
    vf_fill_bytes("message", p.buffer(), n);
    p.buffer_consumed((size_t)n);
    wd.top = 0; wd.open = 0; wd.p = &p; wd.on = true; wd.start = p.m_buffer; wd.len = (int64_t)p.m_used;
    w = &wd;
    mp::object_handle h;
    bool got = false, failed = false;
    try { got = p.next(h); } catch (std::exception&) { failed = true; }
    wd.on = false;
    if (got) {
        Ctx& c = d::ctx();
        vf_assert(c.m_stack.m_stack.empty() && c.m_cs == MSGPACK_CS_HEADER, "C20,C22/a value is delivered only when it is complete");
        if (wd.top == &d::vis().m_obj) wd.top = const_cast<mp::object*>(&h.get());
        d::valuesOk(true);
        vf_cover("decode:value");
    } else vf_cover("decode:none");
    if (failed) vf_cover("decode:rejected");
    vf_assert(p.m_off <= p.m_used, "C22/the parser stays inside the message");
}
#define AT_HEADER(name, open, kinds) VF_HARNESS(name) { any(MSGPACK_CS_HEADER, open, kinds); vf_cover(#name ":end"); }
AT_HEADER(d_0, 0, 0)
AT_HEADER(d_a, 1, 0)
AT_HEADER(d_k, 1, 1)
AT_HEADER(d_v, 1, 2)
AT_HEADER(d_aa, 2, 0)
AT_HEADER(d_ka, 2, 1)
AT_HEADER(d_va, 2, 2)
AT_HEADER(d_ak, 2, 3)
AT_HEADER(d_kk, 2, 4)
AT_HEADER(d_vk, 2, 5)
AT_HEADER(d_av, 2, 6)
AT_HEADER(d_kv, 2, 7)
AT_HEADER(d_vv, 2, 8)
VF_HARNESS(d_val0) {
    int64_t t = vf_range("state", 0, 2);
    any(t == 0 ? MSGPACK_ACS_STR_VALUE : t == 1 ? MSGPACK_ACS_BIN_VALUE : MSGPACK_ACS_EXT_VALUE, 0, 0);
    vf_cover("d_val0:end");
}
VF_HARNESS(d_val1) {
    int64_t t = vf_range("state", 0, 2), k = vf_range("kind", 0, 2);
    any(t == 0 ? MSGPACK_ACS_STR_VALUE : t == 1 ? MSGPACK_ACS_BIN_VALUE : MSGPACK_ACS_EXT_VALUE, 1, k);
    vf_cover("d_val1:end");
}
VF_HARNESS(d_val2) {
    int64_t t = vf_range("state", 0, 2), k = vf_range("kinds", 0, 8);
    any(t == 0 ? MSGPACK_ACS_STR_VALUE : t == 1 ? MSGPACK_ACS_BIN_VALUE : MSGPACK_ACS_EXT_VALUE, 2, k);
    vf_cover("d_val2:end");
}

// the number of elements of an array or map
static void elements(bool map) {
    int64_t n = vf_range("elements", 0, 0xffffffffLL), m = vf_range("bytes received", 0, 5);
    mp::sbuffer b;
    mp::packer<mp::sbuffer> pk(b);
    if (map) pk.pack_map((uint32_t)n); else pk.pack_array((uint32_t)n);
    const uint8_t* q = (const uint8_t*)b.data();
    size_t h = n < 16 ? 1 : n < 65536 ? 3 : 5;
    vf_assert(b.size() == h, "C20/an array or map has its standard header");
    if (h == 1) vf_assert(q[0] == (map ? 0x80 : 0x90) + n, "C20/an array or map has its standard header");
    else if (h == 3) vf_assert(q[0] == (map ? 0xde : 0xdc) && q[1] * 256 + q[2] == n, "C20/an array or map has its standard header");
    else vf_assert(q[0] == (map ? 0xdf : 0xdd) && ((q[1] * 256LL + q[2]) * 256 + q[3]) * 256 + q[4] == n, "C20/an array or map has its standard header");
    vf_assume(m <= (int64_t)h);
    mp::unpacker p;
    p.reserve_buffer((size_t)m);
    memcpy(p.buffer(), q, (size_t)m);
    p.buffer_consumed((size_t)m);
    mp::object_handle o;
    bool got = false;
    try { got = p.next(o); } catch (std::bad_alloc&) { return; }
    bool all = m == (int64_t)h;
    vf_assert(got == (all && n == 0), "C20/a value is delivered exactly when it has arrived completely");
    Ctx& c = p;
    Visitor& v = p;
    if (got) vf_assert(map ? o.get().type == mp::type::MAP && o.get().via.map.size == 0 : o.get().type == mp::type::ARRAY && o.get().via.array.size == 0, "C20/kind and length are read back");
    else if (all) {
        vf_assert(c.m_stack.m_stack.size() == 1 && c.m_stack.m_stack[0].m_rest == n && c.m_stack.m_stack[0].m_type == (map ? MSGPACK_CT_MAP_KEY : MSGPACK_CT_ARRAY_ITEM), "C20/as many values are expected as were announced");
        vf_assert(map ? v.m_obj.type == mp::type::MAP && v.m_obj.via.map.size == n : v.m_obj.type == mp::type::ARRAY && v.m_obj.via.array.size == n, "C20/kind and length are read back");
    } else vf_assert(c.m_stack.m_stack.empty(), "C20/a container whose length has not arrived is not opened");
    if (got) vf_cover("elements:none"); else if (all) vf_cover("elements:some"); else vf_cover("elements:incomplete");
}
VF_HARNESS(l_array) { elements(false); vf_cover("l_array:end"); }
VF_HARNESS(l_map) { elements(true); vf_cover("l_map:end"); }
