/* Contracts of the wire format: what is written for a value (the shortest standard encoding), what is read back from those bytes, and
 * what a conversion to a requested type yields.  The packer, the buffer, the unpacker with its parser, visitor and zone, and the
 * conversions are the real code. */
#include "vf.h"
#include <string.h>
#include <string>
#include <limits>
#include "veigar/veigar.h"
namespace mp = veigar_msgpack;
typedef mp::type::object_type Type;

static int64_t i64(const char* n) { return vf_range(n, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()); }
static uint64_t u64(const char* n) { return (uint64_t)i64(n); }
static uint8_t at(const mp::sbuffer& b, size_t i) { return (uint8_t)b.data()[i]; }
// the n last bytes of v, most significant first
static bool bigEndian(const mp::sbuffer& b, size_t at0, uint64_t v, int n) {
    bool ok = true;
    for (int i = 0; i < n; i++) ok &= at(b, at0 + i) == (uint8_t)(v >> (8 * (n - 1 - i)));
    return ok;
}
static void encodedAs(const mp::sbuffer& b, int head, uint64_t v, int n) {
    vf_assert(b.size() == (size_t)n + 1 && at(b, 0) == head && bigEndian(b, 1, v, n), "C18/an integer has its shortest standard encoding");
}
static void encodedInt(const mp::sbuffer& b, bool neg, uint64_t v) {
    if (!neg) {
        if (v < 0x80) vf_assert(b.size() == 1 && at(b, 0) == v, "C18/an integer has its shortest standard encoding");
        else if (v < 0x100) encodedAs(b, 0xcc, v, 1);
        else if (v < 0x10000) encodedAs(b, 0xcd, v, 2);
        else if (v < 0x100000000ULL) encodedAs(b, 0xce, v, 4);
        else encodedAs(b, 0xcf, v, 8);
    } else {
        int64_t s = (int64_t)v;
        if (s >= -32) vf_assert(b.size() == 1 && at(b, 0) == (uint8_t)v, "C18/an integer has its shortest standard encoding");
        else if (s >= -0x80) encodedAs(b, 0xd0, v, 1);
        else if (s >= -0x8000) encodedAs(b, 0xd1, v, 2);
        else if (s >= -0x80000000LL) encodedAs(b, 0xd2, v, 4);
        else encodedAs(b, 0xd3, v, 8);
    }
}
// as the dispatchers do
static bool receive(mp::unpacker& p, const char* d, size_t n, mp::object_handle& h) {
    p.reserve_buffer(n);
    memcpy(p.buffer(), d, n);
    p.buffer_consumed(n);
    return p.next(h);
}
// an argument is packed as it is, a result is made an object first
template <typename T> static void packed(const T& v, mp::sbuffer& b, bool result) {
    if (result) {
        mp::zone z;
        mp::object o(v, z);
        mp::pack(b, o);
    } else mp::pack(b, v);
}
template <typename T> static void integer(const char* name) {
    T v = (T)i64(name);
    mp::sbuffer b;
    packed(v, b, vf_bool("as a result"));
    bool neg = std::numeric_limits<T>::is_signed && v < 0;
    encodedInt(b, neg, (uint64_t)v);
    mp::unpacker p;
    mp::object_handle h;
    bool got = receive(p, b.data(), b.size(), h);
    vf_assert(got, "C18/a packed integer is read back");
    vf_assert(h.get().type == (neg ? mp::type::NEGATIVE_INTEGER : mp::type::POSITIVE_INTEGER) && h.get().via.u64 == (uint64_t)v, "C18/a packed integer is read back unchanged");
    vf_assert(p.nonparsed_size() == 0, "C18/reading a value consumes the bytes written");
    vf_assert(h.get().as<T>() == v, "C18,C21/an integer survives the wire");
    mp::object_handle h2;
    vf_assert(!p.next(h2), "C18,C20/nothing is read beyond the bytes written");
}

VF_HARNESS(w_char) { integer<char>("value"); vf_cover("w_char:end"); }
VF_HARNESS(w_schar) { integer<signed char>("value"); vf_cover("w_schar:end"); }
VF_HARNESS(w_uchar) { integer<unsigned char>("value"); vf_cover("w_uchar:end"); }
VF_HARNESS(w_short) { integer<short>("value"); vf_cover("w_short:end"); }
VF_HARNESS(w_ushort) { integer<unsigned short>("value"); vf_cover("w_ushort:end"); }
VF_HARNESS(w_int) { integer<int>("value"); vf_cover("w_int:end"); }
VF_HARNESS(w_uint) { integer<unsigned>("value"); vf_cover("w_uint:end"); }
VF_HARNESS(w_long) { integer<long>("value"); vf_cover("w_long:end"); }
VF_HARNESS(w_ulong) { integer<unsigned long>("value"); vf_cover("w_ulong:end"); }
VF_HARNESS(w_llong) { integer<long long>("value"); vf_cover("w_llong:end"); }
VF_HARNESS(w_ullong) { integer<unsigned long long>("value"); vf_cover("w_ullong:end"); }
VF_HARNESS(w_wchar) { integer<wchar_t>("value"); vf_cover("w_wchar:end"); }

// a time with nanoseconds (an extension of the standard): in its shortest form
VF_HARNESS(w_time) {
    timespec v;
    v.tv_sec = i64("seconds");
    v.tv_nsec = (long)vf_range("nanoseconds", 0, 999999999);
    mp::sbuffer b;
    packed(v, b, vf_bool("as a result"));
    size_t n = v.tv_sec >= 0 && v.tv_sec < (1LL << 34) ? (v.tv_nsec == 0 && v.tv_sec < (1LL << 32) ? 6 : 10) : 15;
    vf_assert(b.size() == n, "C20/a time has its shortest standard encoding");
    mp::unpacker p;
    mp::object_handle h, h2;
    vf_assert(receive(p, b.data(), b.size(), h), "C20/a packed time is read back");
    vf_assert(h.get().type == mp::type::EXT && h.get().via.ext.type() == -1, "C20/a packed time is read back");
    timespec r = h.get().as<timespec>();
    vf_assert(r.tv_sec == v.tv_sec && r.tv_nsec == v.tv_nsec, "C20,C21/a time survives the wire");
    vf_assert(p.nonparsed_size() == 0 && !p.next(h2), "C20/reading a value consumes the bytes written");
    vf_cover("w_time:end");
}

VF_HARNESS(w_bool) {
    bool v = vf_bool("value");
    mp::sbuffer b;
    packed(v, b, vf_bool("as a result"));
    vf_assert(b.size() == 1 && at(b, 0) == (v ? 0xc3 : 0xc2), "C18/a boolean has its standard encoding");
    mp::unpacker p;
    mp::object_handle h, h2;
    vf_assert(receive(p, b.data(), b.size(), h), "C18/a packed boolean is read back");
    vf_assert(h.get().type == mp::type::BOOLEAN && h.get().via.boolean == v && h.get().as<bool>() == v, "C18,C21/a boolean survives the wire");
    vf_assert(p.nonparsed_size() == 0 && !p.next(h2), "C18/reading a value consumes the bytes written");
    vf_cover("w_bool:end");
}

template <typename F, typename U> static F fromBits(U u) { F f; memcpy(&f, &u, sizeof f); return f; }
template <typename F, typename U> static U bitsOf(F f) { U u; memcpy(&u, &f, sizeof u); return u; }
/* A value may be sent as the integer it equals; a NaN is sent as it is, and a signalling NaN may arrive quiet. */
template <typename F, typename U> static void floating(int head, U quiet, U exponent, Type t, bool result) {
    U bits = (U)i64("bits");
    F v = fromBits<F, U>(bits);
    bool nan = (bits & exponent) == exponent && (bits & (quiet * 2 - 1)) != 0;
    mp::sbuffer b;
    packed(v, b, result);
    if (nan) vf_assert(b.size() == sizeof(U) + 1 && at(b, 0) == head && (bigEndian(b, 1, bits, sizeof(U)) || bigEndian(b, 1, bits | quiet, sizeof(U))), "C19/a NaN is sent with its bits");
    mp::unpacker p;
    mp::object_handle h, h2;
    vf_assert(receive(p, b.data(), b.size(), h), "C19/a packed floating point value is read back");
    Type k = h.get().type;
    vf_assert(k == t || k == mp::type::POSITIVE_INTEGER || k == mp::type::NEGATIVE_INTEGER, "C19/a floating point value is read back as a number");
    U back = bitsOf<F, U>(h.get().as<F>());
    vf_assert(back == bits || (nan && k == t && back == (bits | quiet)), "C19,C21/a floating point value survives the wire bit for bit");
    vf_assert(p.nonparsed_size() == 0 && !p.next(h2), "C19/reading a value consumes the bytes written");
}
VF_HARNESS(w_float) { floating<float, uint32_t>(0xca, 0x400000, 0x7f800000, mp::type::FLOAT32, false); vf_cover("w_float:end"); }
VF_HARNESS(w_float_result) { floating<float, uint32_t>(0xca, 0x400000, 0x7f800000, mp::type::FLOAT32, true); vf_cover("w_float_result:end"); }
VF_HARNESS(w_double) { floating<double, uint64_t>(0xcb, 0x8000000000000ULL, 0x7ff0000000000000ULL, mp::type::FLOAT64, false); vf_cover("w_double:end"); }
VF_HARNESS(w_double_result) { floating<double, uint64_t>(0xcb, 0x8000000000000ULL, 0x7ff0000000000000ULL, mp::type::FLOAT64, true); vf_cover("w_double_result:end"); }

/* conversions: any received value to any requested type */
static mp::object received() {
    mp::object o;
    o.type = (Type)vf_range("type", 0, 9);
    o.via.u64 = u64("bits");
    if (o.type == mp::type::BOOLEAN) { bool b = (o.via.u64 & 1) != 0; o.via.u64 = 0; o.via.boolean = b; }
    // what the parser delivers: only negative values are negative integers
    if (o.type == mp::type::NEGATIVE_INTEGER) vf_assume(o.via.i64 < 0);
    return o;
}
template <typename T> static bool fits(const mp::object& o) {
    if (o.type == mp::type::POSITIVE_INTEGER) return o.via.u64 <= (uint64_t)std::numeric_limits<T>::max();
    if (o.type == mp::type::NEGATIVE_INTEGER) return std::numeric_limits<T>::is_signed && o.via.i64 >= (int64_t)std::numeric_limits<T>::min();
    return false;
}
template <typename T> static void toInteger() {
    mp::object o = received();
    bool ok = true;
    T v = 0, w = 0;
    try { v = o.as<T>(); } catch (mp::type_error&) { ok = false; }
    vf_assert(ok == fits<T>(o), "C21/a conversion to an integer fails exactly when the value is no integer of that type");
    if (ok) vf_assert((uint64_t)v == o.via.u64 && (v < 0) == (o.type == mp::type::NEGATIVE_INTEGER), "C21/a conversion to an integer yields the received value");
    bool ok2 = true;
    try { o.convert(w); } catch (mp::type_error&) { ok2 = false; }
    vf_assert(ok2 == ok && (!ok || v == w), "C21/both ways to convert agree");
}
VF_HARNESS(x_char) { toInteger<char>(); vf_cover("x_char:end"); }
VF_HARNESS(x_schar) { toInteger<signed char>(); vf_cover("x_schar:end"); }
VF_HARNESS(x_uchar) { toInteger<unsigned char>(); vf_cover("x_uchar:end"); }
VF_HARNESS(x_short) { toInteger<short>(); vf_cover("x_short:end"); }
VF_HARNESS(x_ushort) { toInteger<unsigned short>(); vf_cover("x_ushort:end"); }
VF_HARNESS(x_int) { toInteger<int>(); vf_cover("x_int:end"); }
VF_HARNESS(x_uint) { toInteger<unsigned>(); vf_cover("x_uint:end"); }
VF_HARNESS(x_long) { toInteger<long>(); vf_cover("x_long:end"); }
VF_HARNESS(x_ulong) { toInteger<unsigned long>(); vf_cover("x_ulong:end"); }
VF_HARNESS(x_llong) { toInteger<long long>(); vf_cover("x_llong:end"); }
VF_HARNESS(x_ullong) { toInteger<unsigned long long>(); vf_cover("x_ullong:end"); }
VF_HARNESS(x_wchar) { toInteger<wchar_t>(); vf_cover("x_wchar:end"); }
VF_HARNESS(x_bool) {
    mp::object o = received();
    bool ok = true, v = false;
    try { v = o.as<bool>(); } catch (mp::type_error&) { ok = false; }
    vf_assert(ok == (o.type == mp::type::BOOLEAN), "C21/only a boolean converts to bool");
    if (ok) vf_assert(v == ((o.via.u64 & 1) != 0), "C21/a boolean keeps its value");
    vf_cover("x_bool:end");
}
template <typename F, typename U> static void toFloating() {
    mp::object o = received();
    bool ok = true;
    F v = 0;
    try { v = o.as<F>(); } catch (mp::type_error&) { ok = false; }
    bool number = o.type == mp::type::POSITIVE_INTEGER || o.type == mp::type::NEGATIVE_INTEGER || o.type == mp::type::FLOAT32 || o.type == mp::type::FLOAT64;
    vf_assert(ok == number, "C21/exactly numbers convert to floating point");
    if (!ok) return;
    F want = o.type == mp::type::POSITIVE_INTEGER ? (F)o.via.u64 : o.type == mp::type::NEGATIVE_INTEGER ? (F)o.via.i64 : (F)o.via.f64;
    vf_assert(bitsOf<F, U>(v) == bitsOf<F, U>(want), "C21/a number converts to the nearest floating point value");
}
VF_HARNESS(x_float) { toFloating<float, uint32_t>(); vf_cover("x_float:end"); }
VF_HARNESS(x_double) { toFloating<double, uint64_t>(); vf_cover("x_double:end"); }
