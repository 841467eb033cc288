/* Contracts of the values that hold other values: what is packed for a vector, pair, tuple, map or array, directly (as the arguments of a call) and
 * as the result of a bound function, is the same, and is read back as it was. */
#include "vf.h"
#include <string.h>
#include <string>
#include <vector>
#include <list>
#include <deque>
#include <map>
#include <set>
#include <array>
#include <limits>
#include <complex>
#include <forward_list>
#include <memory>
#include <time.h>
#include "veigar/veigar.h"
#include "veigar/detail/response.h"
namespace mp = veigar_msgpack;

#ifdef VF_VERIFIER
// room for everything from the start: growing the buffers is the subject of the unit wirelen (l_append, l_two)
extern "C" void vfx__ZN14veigar_msgpack2v17sbufferC2Em(mp::sbuffer* b, size_t) {
    b->m_size = 0;
    b->m_alloc = (size_t)1 << 40;
    b->m_data = (char*)malloc((size_t)1 << 40);
}
// the parts of the ordered containers that are inside the C++ library: a tree need not be balanced
extern "C" void* vfx_memchr(const void* p, int c, size_t n) {
    for (size_t i = 0; i < n; i++) if (((const unsigned char*)p)[i] == (unsigned char)c) return (void*)((const char*)p + i);
    return 0;
}
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x && x->_M_parent->_M_color == _S_black) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
}
#endif
struct Unpacker : mp::unpacker {
    explicit Unpacker(const mp::sbuffer& b) : mp::unpacker(&mp::unpacker::default_reference_func, 0, b.size() + 64) {}
};
static void receive(mp::unpacker& p, const mp::sbuffer& b, mp::object_handle& h) {
    p.reserve_buffer(b.size());
    memcpy(p.buffer(), b.data(), b.size());
    p.buffer_consumed(b.size());
    bool got = p.next(h);
    vf_assert(got && p.nonparsed_size() == 0, "C20/a packed value is read back, from exactly the bytes written");
}
static int small(const char* what) { return (int)vf_range(what, -32, 127); }
static std::string shortText(const char* what) {
    std::string s = vf_string(what);
    vf_assume(s.size() < 32);
    return s;
}
// v as an argument: packed directly
template <typename T> static void direct(const T& v, mp::sbuffer& b) { mp::pack(b, v); }
// v as a result: made an object, then packed
template <typename T> static void asObject(const T& v, mp::sbuffer& b) {
    mp::zone z;
    mp::object o(v, z);
    mp::pack(b, o);
}
template <typename T, typename Q> static void trip(const T& v, Q same, bool noResult = false) {
    mp::sbuffer b;
    bool result = !noResult && vf_bool("as a result");
    if (result) asObject(v, b); else direct(v, b);
    Unpacker p(b);
    mp::object_handle h;
    receive(p, b, h);
    T r = h.get().template as<T>();
    vf_assert(same(r, v), "C20,C21/a collection is read back with its elements, unchanged and in order");
}
static int count(const char* what, int most) { return most > 0 && vf_bool(what) ? 1 + count(what, most - 1) : 0; }

VF_HARNESS(k_bytes) {
    int64_t n = vf_range("length", 0, 0xffffffffLL), k = vf_range("byte", 0, 0xffffffffLL);
#ifndef VF_VERIFIER
    vf_assume(n <= 1 << 16);
#endif
    std::vector<char> v((size_t)n);
    if (n > 0) vf_fill_bytes("bytes", (uint8_t*)v.data(), n);
    trip(v, [&](const std::vector<char>& a, const std::vector<char>& b) { return a.size() == b.size() && (k >= n || a[(size_t)k] == b[(size_t)k]); }, n == 0);
    vf_cover("k_bytes:end");
}
VF_HARNESS(k_ubytes) {
    int64_t n = vf_range("length", 0, 0xffffffffLL), k = vf_range("byte", 0, 0xffffffffLL);
#ifndef VF_VERIFIER
    vf_assume(n <= 1 << 16);
#endif
    std::vector<unsigned char> v((size_t)n);
    if (n > 0) vf_fill_bytes("bytes", v.data(), n);
    trip(v, [&](const std::vector<unsigned char>& a, const std::vector<unsigned char>& b) { return a.size() == b.size() && (k >= n || a[(size_t)k] == b[(size_t)k]); }, n == 0);
    vf_cover("k_ubytes:end");
}
template <typename V> static bool sameSeq(const V& a, const V& b) {
    if (a.size() != b.size()) return false;
    auto i = a.begin();
    for (const auto& x : b) if (!(*i++ == x)) return false;
    return true;
}
template <typename V> static void numbers() {
    int n = count("elements", 17);
    V v;
    for (int i = 0; i < n; i++) v.push_back((int)vf_range("element", 0, 127));
    trip(v, sameSeq<V>);
}
VF_HARNESS(k_vector) { numbers<std::vector<int>>(); vf_cover("k_vector:end"); }
VF_HARNESS(k_list) { numbers<std::list<int>>(); vf_cover("k_list:end"); }
VF_HARNESS(k_deque) { numbers<std::deque<int>>(); vf_cover("k_deque:end"); }
VF_HARNESS(k_array) {
    std::array<int, 3> v = {{small("element"), small("element"), small("element")}};
    trip(v, sameSeq<std::array<int, 3>>);
    vf_cover("k_array:end");
}
VF_HARNESS(k_texts) {
    int n = count("elements", 2);
    std::vector<std::string> v;
    for (int i = 0; i < n; i++) v.push_back(shortText("element"));
    trip(v, [](const std::vector<std::string>& a, const std::vector<std::string>& b) {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); i++) if (!vf_str_eq(a[i], b[i])) return false;
        return true;
    });
    vf_cover("k_texts:end");
}
VF_HARNESS(k_pair) {
    std::pair<int, std::string> v(small("first"), shortText("second"));
    trip(v, [](const std::pair<int, std::string>& a, const std::pair<int, std::string>& b) { return a.first == b.first && vf_str_eq(a.second, b.second); });
    vf_cover("k_pair:end");
}
VF_HARNESS(k_tuple) {
    typedef std::tuple<int, std::string, bool> T;
    T v(small("first"), shortText("second"), vf_bool("third"));
    trip(v, [](const T& a, const T& b) { return std::get<0>(a) == std::get<0>(b) && vf_str_eq(std::get<1>(a), std::get<1>(b)) && std::get<2>(a) == std::get<2>(b); });
    vf_cover("k_tuple:end");
}
VF_HARNESS(k_map) {
    typedef std::map<int, int> T;
    int n = count("elements", 2);
    T v;
    for (int i = 0; i < n; i++) { int k = small("key"); v[k] = small("value"); }
    trip(v, [](const T& a, const T& b) {
        if (a.size() != b.size()) return false;
        for (auto& x : b) { auto i = a.find(x.first); if (i == a.end() || i->second != x.second) return false; }
        return true;
    });
    vf_cover("k_map:end");
}
VF_HARNESS(k_set) {
    typedef std::set<int> T;
    int n = count("elements", 2);
    T v;
    for (int i = 0; i < n; i++) v.insert(small("element"));
    trip(v, sameSeq<T>);
    vf_cover("k_set:end");
}
VF_HARNESS(k_nested) {
    typedef std::vector<std::vector<int>> T;
    int n = count("elements", 2);
    T v;
    for (int i = 0; i < n; i++) {
        std::vector<int> e;
        int m = count("elements of the element", 2);
        for (int j = 0; j < m; j++) e.push_back(small("value"));
        v.push_back(e);
    }
    trip(v, [](const T& a, const T& b) {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); i++) if (!sameSeq(a[i], b[i])) return false;
        return true;
    });
    vf_cover("k_nested:end");
}

/* ---- types with their own packing */
VF_HARNESS(k_forward) {
    typedef std::forward_list<int> T;
    int n = count("elements", 17);
    T v;
    for (int i = 0; i < n; i++) v.push_front((int)vf_range("element", 0, 127));
    trip(v, [](const T& a, const T& b) {
        auto i = a.begin();
        for (const auto& x : b) if (i == a.end() || !(*i++ == x)) return false;
        return i == a.end();
    });
    vf_cover("k_forward:end");
}
VF_HARNESS(k_complex) {
    typedef std::complex<int> T;
    T v(small("real"), small("imaginary"));
    trip(v, [](const T& a, const T& b) { return a.real() == b.real() && a.imag() == b.imag(); });
    vf_cover("k_complex:end");
}
VF_HARNESS(k_multimap) {
    typedef std::multimap<int, int> T;
    int n = count("elements", 2);
    T v;
    for (int i = 0; i < n; i++) { int k = small("key"); v.insert(T::value_type(k, small("value"))); }
    trip(v, sameSeq<T>);
    vf_cover("k_multimap:end");
}
// a pointer that may be empty
VF_HARNESS(k_shared) {
    std::shared_ptr<int> v;
    int x = small("value");
    if (vf_bool("some")) v = std::make_shared<int>(x);
    trip(v, [](const std::shared_ptr<int>& a, const std::shared_ptr<int>& b) { return !a == !b && (!a || *a == *b); });
    vf_cover("k_shared:end");
}
VF_HARNESS(k_unique) {
    std::unique_ptr<int> v;
    int x = small("value");
    if (vf_bool("some")) v.reset(new int(x));
    trip(v, [](const std::unique_ptr<int>& a, const std::unique_ptr<int>& b) { return !a == !b && (!a || *a == *b); });
    vf_cover("k_unique:end");
}
// types of the user: members as an array, and as a map with the names of the members
struct ByPosition {
    int a; std::string b; int c[2];
    MSGPACK_DEFINE(a, b, c);
};
struct ByName {
    int a; std::string b;
    MSGPACK_DEFINE_MAP(a, b);
};
VF_HARNESS(k_define) {
    ByPosition v;
    v.a = small("a"); v.b = shortText("b"); v.c[0] = small("c0"); v.c[1] = small("c1");
    trip(v, [](const ByPosition& a, const ByPosition& b) { return a.a == b.a && vf_str_eq(a.b, b.b) && a.c[0] == b.c[0] && a.c[1] == b.c[1]; });
    vf_cover("k_define:end");
}
VF_HARNESS(k_define_map) {
    ByName v;
    v.a = small("a"); v.b = shortText("b");
    trip(v, [](const ByName& a, const ByName& b) { return a.a == b.a && vf_str_eq(a.b, b.b); });
    vf_cover("k_define_map:end");
}

/* ---- conversions of a received value of any kind to a requested type: equal, or an error */
namespace conv {
struct Any {
    mp::object o;
    int n;              // elements
    mp::object el[3];
    mp::object_kv kv[2];
    int64_t len;        // bytes
    uint8_t* bytes;
    bool isText() const { return o.type == mp::type::STR; }
    bool isBin() const { return o.type == mp::type::BIN; }
    bool isArray() const { return o.type == mp::type::ARRAY; }
    bool isMap() const { return o.type == mp::type::MAP; }
};
static void any(Any& a) {
    a.n = 0; a.len = 0; a.bytes = 0;
    int kind = (int)vf_range("kind", 0, 9);
    if (kind == 0) { a.o.type = mp::type::NIL; return; }
    if (kind == 1) { a.o.type = mp::type::BOOLEAN; a.o.via.boolean = vf_bool("value"); return; }
    if (kind == 2) { a.o.type = mp::type::POSITIVE_INTEGER; a.o.via.u64 = (uint64_t)vf_range("value", 0, INT64_MAX); return; }
    if (kind == 3) { a.o.type = mp::type::NEGATIVE_INTEGER; a.o.via.i64 = vf_range("value", INT64_MIN, -1); return; }
    if (kind == 4) { a.o.type = mp::type::FLOAT64; a.o.via.f64 = 1.5; return; }
    if (kind == 9) {
        a.len = vf_range("length", 0, 0xffffffffLL);
#ifndef VF_VERIFIER
        vf_assume(a.len <= 64);
#endif
        a.bytes = vf_alloc(a.len + 1);      // the type, then the data
        vf_fill_bytes("bytes", a.bytes, a.len + 1);
        a.o.type = mp::type::EXT; a.o.via.ext.ptr = (const char*)a.bytes; a.o.via.ext.size = (uint32_t)a.len;
        return;
    }
    if (kind <= 6) {
        a.len = vf_range("length", 0, 0xffffffffLL);
#ifndef VF_VERIFIER
        vf_assume(a.len <= 64);
#endif
        a.bytes = vf_alloc(a.len > 0 ? a.len : 1);    // the visitor never makes a null pointer
        if (a.len > 0) vf_fill_bytes("bytes", a.bytes, a.len);
        if (kind == 5) { a.o.type = mp::type::STR; a.o.via.str.ptr = (const char*)a.bytes; a.o.via.str.size = (uint32_t)a.len; }
        else { a.o.type = mp::type::BIN; a.o.via.bin.ptr = (const char*)a.bytes; a.o.via.bin.size = (uint32_t)a.len; }
        return;
    }
    if (kind == 7) {
        a.n = count("one more element", 3);
        mp::object* p = a.n > 0 ? (mp::object*)malloc(a.n * sizeof(mp::object)) : 0;
        for (int i = 0; i < a.n; i++) { a.el[i] = mp::object(small("element")); p[i] = a.el[i]; }
        a.o.type = mp::type::ARRAY; a.o.via.array.ptr = p; a.o.via.array.size = (uint32_t)a.n;
        return;
    }
    a.n = count("one more element", 2);
    mp::object_kv* p = a.n > 0 ? (mp::object_kv*)malloc(a.n * sizeof(mp::object_kv)) : 0;
    for (int i = 0; i < a.n; i++) { a.kv[i].key = mp::object(small("key")); a.kv[i].val = mp::object(small("value")); p[i] = a.kv[i]; }
    a.o.type = mp::type::MAP; a.o.via.map.ptr = p; a.o.via.map.size = (uint32_t)a.n;
}
// as<T>() or convert(T&), as the library and its users do
template <typename T> static bool to(const Any& a, T& v) {
    try {
        if (vf_bool("convert")) a.o.convert(v); else v = a.o.as<T>();
        return true;
    } catch (mp::type_error&) { return false; }
}
template <typename T> static bool toByConvert(const Any& a, T& v) {
    try { a.o.convert(v); return true; } catch (mp::type_error&) { return false; }
}
static bool number(const mp::object& o, int v) { return v >= 0 ? o.type == mp::type::POSITIVE_INTEGER && o.via.u64 == (uint64_t)v : o.type == mp::type::NEGATIVE_INTEGER && o.via.i64 == v; }
template <typename V> static bool elements(const Any& a, const V& v) {
    if ((int)v.size() != a.n) return false;
    int i = 0;
    for (int x : v) if (!number(a.el[i++], x)) return false;
    return true;
}
}
static const char KINDS[] = "C21/a value of another kind is refused, one of this kind is converted";
static const char EQUAL[] = "C21/a converted value equals the received one";
VF_HARNESS(c_text) {
    conv::Any a; conv::any(a);
    std::string s;
    bool ok = conv::to(a, s);
    vf_assert(ok == (a.isText() || a.isBin()), KINDS);
    if (ok) {
        vf_assert((int64_t)s.size() == a.len, EQUAL);
        vf_cover("c_text:ok");
    } else vf_cover("c_text:refused");
}
template <typename V> static void toBytes() {
    conv::Any a; conv::any(a);
    V v;
    bool ok = conv::toByConvert(a, v);
    vf_assert(ok == (a.isText() || a.isBin()), KINDS);
    if (ok) {
        vf_assert((int64_t)v.size() == a.len, EQUAL);
        int64_t k = vf_range("byte", 0, 0xffffffffLL);
        if (k < a.len) vf_assert((uint8_t)v[(size_t)k] == a.bytes[k], EQUAL);
    }
}
VF_HARNESS(c_bytes) { toBytes<std::vector<char>>(); vf_cover("c_bytes:end"); }
VF_HARNESS(c_ubytes) { toBytes<std::vector<unsigned char>>(); vf_cover("c_ubytes:end"); }
template <typename E> static void toByteArray() {
    conv::Any a; conv::any(a);
    std::array<E, 4> v = {{1, 2, 3, 4}};
    bool ok = conv::toByConvert(a, v);
    vf_assert(ok == ((a.isText() || a.isBin()) && a.len <= 4), KINDS);
    if (ok) {
        int64_t k = vf_range("byte", 0, 3);
        if (k < a.len) vf_assert((uint8_t)v[(size_t)k] == a.bytes[k], EQUAL);
    }
}
VF_HARNESS(c_array_char) { toByteArray<char>(); vf_cover("c_array_char:end"); }
VF_HARNESS(c_array_uchar) { toByteArray<unsigned char>(); vf_cover("c_array_uchar:end"); }
VF_HARNESS(c_carray_char) {
    conv::Any a; conv::any(a);
    struct { char v[4]; } x = {{1, 2, 3, 4}};
    bool ok = true;
    try { a.o.convert(x.v); } catch (mp::type_error&) { ok = false; }
    vf_assert(ok == ((a.isText() || a.isBin()) && a.len <= 4), KINDS);
    if (ok) {
        int64_t k = vf_range("byte", 0, 3);
        if (k < a.len) vf_assert((uint8_t)x.v[k] == a.bytes[k], EQUAL);
    }
    vf_cover("c_carray_char:end");
}
VF_HARNESS(c_carray_uchar) {
    conv::Any a; conv::any(a);
    struct { unsigned char v[4]; } x = {{1, 2, 3, 4}};
    bool ok = true;
    try { a.o.convert(x.v); } catch (mp::type_error&) { ok = false; }
    vf_assert(ok == ((a.isText() || a.isBin()) && a.len <= 4), KINDS);
    if (ok) {
        int64_t k = vf_range("byte", 0, 3);
        if (k < a.len) vf_assert(x.v[k] == a.bytes[k], EQUAL);
    }
    vf_cover("c_carray_uchar:end");
}
VF_HARNESS(c_carray) {
    conv::Any a; conv::any(a);
    struct { int v[2]; } x = {{7, 7}};
    bool ok = true;
    try { a.o.convert(x.v); } catch (mp::type_error&) { ok = false; }
    vf_assert(ok == (a.isArray() && a.n <= 2), KINDS);
    if (ok) for (int i = 0; i < a.n; i++) vf_assert(conv::number(a.el[i], x.v[i]), EQUAL);
    vf_cover("c_carray:end");
}
template <typename V> static void toSequence() {
    conv::Any a; conv::any(a);
    V v;
    bool ok = conv::to(a, v);
    vf_assert(ok == a.isArray(), KINDS);
    if (ok) vf_assert(conv::elements(a, v), EQUAL);
}
VF_HARNESS(c_vector) { toSequence<std::vector<int>>(); vf_cover("c_vector:end"); }
VF_HARNESS(c_list) { toSequence<std::list<int>>(); vf_cover("c_list:end"); }
VF_HARNESS(c_deque) { toSequence<std::deque<int>>(); vf_cover("c_deque:end"); }
VF_HARNESS(c_forward) {
    conv::Any a; conv::any(a);
    std::forward_list<int> v;
    bool ok = conv::to(a, v);
    vf_assert(ok == a.isArray(), KINDS);
    if (ok) {
        int i = 0;
        for (int x : v) { vf_assert(i < a.n && conv::number(a.el[i], x), EQUAL); i++; }
        vf_assert(i == a.n, EQUAL);
    }
    vf_cover("c_forward:end");
}
VF_HARNESS(c_complex) {
    conv::Any a; conv::any(a);
    std::complex<int> v;
    bool ok = conv::to(a, v);
    vf_assert(ok == (a.isArray() && a.n == 2), KINDS);
    if (ok) vf_assert(conv::number(a.el[0], v.real()) && conv::number(a.el[1], v.imag()), EQUAL);
    vf_cover("c_complex:end");
}
VF_HARNESS(c_set) {
    conv::Any a; conv::any(a);
    std::set<int> v;
    bool ok = conv::to(a, v);
    vf_assert(ok == a.isArray(), KINDS);
    if (ok) {
        for (int i = 0; i < a.n; i++) {
            bool found = false;
            for (int x : v) if (conv::number(a.el[i], x)) found = true;
            vf_assert(found, EQUAL);
        }
        for (int x : v) {
            bool found = false;
            for (int i = 0; i < a.n; i++) if (conv::number(a.el[i], x)) found = true;
            vf_assert(found, EQUAL);
        }
    }
    vf_cover("c_set:end");
}
VF_HARNESS(c_shared) {
    conv::Any a; conv::any(a);
    std::shared_ptr<std::string> v;
    bool ok = conv::to(a, v);
    vf_assert(ok == (a.isText() || a.isBin() || a.o.type == mp::type::NIL), KINDS);
    if (ok) {
        vf_assert(!v == (a.o.type == mp::type::NIL), EQUAL);
        if (v) vf_assert((int64_t)v->size() == a.len, EQUAL);
    }
    vf_cover("c_shared:end");
}
VF_HARNESS(c_define) {
    conv::Any a; conv::any(a);
    ByPosition v;
    v.a = 7; v.c[0] = v.c[1] = 7;
    bool ok = conv::toByConvert(a, v);
    vf_assert(!ok || (a.isArray() && a.n <= 1), KINDS);     // a second element is a number, not a text
    vf_assert(ok || !(a.isArray() && a.n <= 1), KINDS);
    if (ok && a.n == 1) vf_assert(conv::number(a.el[0], v.a), EQUAL);
    vf_cover("c_define:end");
}
VF_HARNESS(c_define_map) {
    conv::Any a; conv::any(a);
    // names of the members: any texts
    std::string name0 = shortText("name"), name1 = shortText("name");
    if (a.isMap() && a.n > 0) {
        mp::object_kv* p = a.o.via.map.ptr;
        if (vf_bool("named")) { p[0].key.type = mp::type::STR; p[0].key.via.str.ptr = name0.data(); p[0].key.via.str.size = (uint32_t)name0.size(); a.kv[0] = p[0]; }
        if (a.n > 1 && vf_bool("named")) { p[1].key.type = mp::type::STR; p[1].key.via.str.ptr = name1.data(); p[1].key.via.str.size = (uint32_t)name1.size(); a.kv[1] = p[1]; }
    }
    ByName v;
    v.a = 200;
    bool ok = conv::toByConvert(a, v);
    vf_assert(!ok || a.isMap(), KINDS);
    if (ok) {
        bool named = false;
        for (int i = 0; i < a.n; i++)
            if (a.kv[i].key.type == mp::type::STR && vf_str_eq(i ? name1 : name0, "a")) { named = true; }
        if (!named) vf_assert(v.a == 200, EQUAL);
        else vf_assert((a.n > 0 && conv::number(a.kv[0].val, v.a)) || (a.n > 1 && conv::number(a.kv[1].val, v.a)), EQUAL);
    }
    vf_cover("c_define_map:end");
}
// the result of a call, as its caller reads it
VF_HARNESS(c_result) {
    conv::Any a; conv::any(a);
    veigar::CallResult r0;
    r0.errCode = vf_bool("delivered") ? veigar::ErrorCode::SUCCESS : veigar::ErrorCode::TIMEOUT;
    r0.errorMessage = vf_string("message");
    veigar::ErrorCode code = r0.errCode;
    std::string text = r0.errorMessage;
    r0.obj = mp::object_handle(a.o, std::unique_ptr<mp::zone>());
    veigar::CallResult r(std::move(r0));
    vf_assert(r.errCode == code && vf_str_eq(r.errorMessage, text), "C11,C21/a result is moved unchanged");
    vf_assert(r.isSuccess() == (code == veigar::ErrorCode::SUCCESS && text.empty()), "C11/a result is successful if it was delivered without an error text");
    if (vf_bool("to a number")) {
        int v = 7;
        bool ok = r.convertObject(v);
        bool fits = (a.o.type == mp::type::POSITIVE_INTEGER && a.o.via.u64 <= 0x7fffffffULL) || (a.o.type == mp::type::NEGATIVE_INTEGER && a.o.via.i64 >= -0x80000000LL);
        vf_assert(ok == fits, KINDS);
        vf_assert(v == (ok ? (a.o.type == mp::type::POSITIVE_INTEGER ? (int64_t)a.o.via.u64 : a.o.via.i64) : 7), EQUAL);
        if (ok) vf_cover("c_result:number"); else vf_cover("c_result:not a number");
    } else {
        std::string v;
        bool ok = r.convertObject(v);
        vf_assert(ok == (a.isText() || a.isBin()), KINDS);
        if (ok) vf_assert((int64_t)v.size() == a.len, EQUAL);
        if (ok) vf_cover("c_result:text"); else vf_cover("c_result:not a text");
    }
}
VF_HARNESS(c_time) {
    conv::Any a; conv::any(a);
    timespec v;
    bool ok = conv::to(a, v);
    vf_assert(ok == (a.o.type == mp::type::EXT && (int8_t)a.bytes[0] == -1 && (a.len == 4 || a.len == 8 || a.len == 12)), KINDS);
    vf_cover("c_time:end");
}
VF_HARNESS(c_array) {
    conv::Any a; conv::any(a);
    std::array<int, 2> v = {{7, 7}};
    bool byConvert = vf_bool("convert"), ok = true;
    try { if (byConvert) a.o.convert(v); else v = a.o.as<std::array<int, 2>>(); } catch (mp::type_error&) { ok = false; }
    vf_assert(!ok || (a.isArray() && a.n <= 2), KINDS);
    vf_assert(ok || !(a.isArray() && a.n == 2), KINDS);
    if (ok && (byConvert || a.n == 2)) for (int i = 0; i < a.n; i++) vf_assert(conv::number(a.el[i], v[(size_t)i]), EQUAL);
    vf_cover("c_array:end");
}
VF_HARNESS(c_pair) {
    conv::Any a; conv::any(a);
    std::pair<int, int> v;
    bool ok = conv::to(a, v);
    vf_assert(ok == (a.isArray() && a.n == 2), KINDS);
    if (ok) vf_assert(conv::number(a.el[0], v.first) && conv::number(a.el[1], v.second), EQUAL);
    vf_cover("c_pair:end");
}
VF_HARNESS(c_tuple) {
    conv::Any a; conv::any(a);
    std::tuple<int, int> v;
    bool byConvert = vf_bool("convert"), ok = true;
    try { if (byConvert) a.o.convert(v); else v = a.o.as<std::tuple<int, int>>(); } catch (mp::type_error&) { ok = false; }
    vf_assert(!ok || a.isArray(), KINDS);
    vf_assert(ok || !(a.isArray() && a.n == 2), KINDS);
    if (ok && a.n >= 1) vf_assert(conv::number(a.el[0], std::get<0>(v)), EQUAL);
    if (ok && a.n >= 2) vf_assert(conv::number(a.el[1], std::get<1>(v)), EQUAL);
    vf_cover("c_tuple:end");
}
VF_HARNESS(c_map) {
    conv::Any a; conv::any(a);
    std::map<int, int> v;
    bool ok = conv::to(a, v);
    vf_assert(ok == a.isMap(), KINDS);
    if (ok) {
        for (auto& x : v) {
            bool found = false;
            for (int i = 0; i < a.n; i++) if (conv::number(a.kv[i].key, x.first) && conv::number(a.kv[i].val, x.second)) found = true;
            vf_assert(found, EQUAL);
        }
        for (int i = 0; i < a.n; i++) {
            bool found = false;
            for (auto& x : v) if (conv::number(a.kv[i].key, x.first)) found = true;
            vf_assert(found, EQUAL);
        }
    }
    vf_cover("c_map:end");
}
