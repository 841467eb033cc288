/* Contracts of the wire format for values with a length: headers, payload bytes, buffer growth, truncated messages. */
#include "vf.h"
#include <string.h>
#include <string>
#include <limits>
#include "veigar/veigar.h"
namespace mp = veigar_msgpack;

static uint8_t at(const mp::sbuffer& b, int64_t i) { return (uint8_t)b.data()[i]; }
static const int64_t MAXLEN = 0xffffffffLL;

static bool receive(mp::unpacker& p, const char* d, int64_t n, mp::object_handle& h) {
    p.reserve_buffer((size_t)n);
    memcpy(p.buffer(), d, (size_t)n);
    p.buffer_consumed((size_t)n);
    return p.next(h);
}
static bool header(const mp::sbuffer& b, int head, int64_t v, int n) {
    if (at(b, 0) != head) return false;
    for (int i = 0; i < n; i++)
        if (at(b, 1 + i) != (uint8_t)(v >> (8 * (n - 1 - i)))) return false;
    return true;
}
static int64_t strHeader(const mp::sbuffer& b, int64_t n) {
    if (n < 32) { vf_assert(at(b, 0) == 0xa0 + n, "C20/a text has its standard header"); return 1; }
    if (n < 256) { vf_assert(header(b, 0xd9, n, 1), "C20/a text has its standard header"); return 2; }
    if (n < 65536) { vf_assert(header(b, 0xda, n, 2), "C20/a text has its standard header"); return 3; }
    vf_assert(header(b, 0xdb, n, 4), "C20/a text has its standard header"); return 5;
}
static int64_t binHeader(const mp::sbuffer& b, int64_t n) {
    if (n < 256) { vf_assert(header(b, 0xc4, n, 1), "C20/a binary has its standard header"); return 2; }
    if (n < 65536) { vf_assert(header(b, 0xc5, n, 2), "C20/a binary has its standard header"); return 3; }
    vf_assert(header(b, 0xc6, n, 4), "C20/a binary has its standard header"); return 5;
}
static int64_t extHeader(const mp::sbuffer& b, int64_t n, int8_t type) {
    int64_t h;
    if (n == 1 || n == 2 || n == 4 || n == 8 || n == 16) {
        vf_assert(at(b, 0) == (n == 1 ? 0xd4 : n == 2 ? 0xd5 : n == 4 ? 0xd6 : n == 8 ? 0xd7 : 0xd8), "C20/an extension has its standard header");
        h = 1;
    } else if (n < 256) { vf_assert(header(b, 0xc7, n, 1), "C20/an extension has its standard header"); h = 2; }
    else if (n < 65536) { vf_assert(header(b, 0xc8, n, 2), "C20/an extension has its standard header"); h = 3; }
    else { vf_assert(header(b, 0xc9, n, 4), "C20/an extension has its standard header"); h = 5; }
    vf_assert(at(b, h) == (uint8_t)type, "C20/an extension has its standard header");
    return h + 1;
}
enum Kind { STR, BIN, EXT };
static void body(Kind kind) {
    int64_t n = vf_range("length", 0, MAXLEN), k = vf_range("byte", 0, MAXLEN);
    int8_t type = kind == EXT ? (int8_t)vf_range("type", -128, 127) : 0;
#ifndef VF_VERIFIER
    vf_assume(n <= 1 << 22);
#endif
    uint8_t* payload = vf_alloc(n + 1);
    vf_fill_bytes("payload", payload, n);
    mp::sbuffer b;
    mp::packer<mp::sbuffer> pk(b);
    if (kind == BIN) { pk.pack_bin((uint32_t)n); pk.pack_bin_body((const char*)payload, (uint32_t)n); }
    else if (kind == STR) { pk.pack_str((uint32_t)n); pk.pack_str_body((const char*)payload, (uint32_t)n); }
    else { pk.pack_ext((size_t)n, type); pk.pack_ext_body((const char*)payload, (uint32_t)n); }
    int64_t h = kind == BIN ? binHeader(b, n) : kind == STR ? strHeader(b, n) : extHeader(b, n, type);
    vf_assert((int64_t)b.size() == h + n, "C20/header and payload are written completely");
    if (k < n) vf_assert(at(b, h + k) == payload[k], "C20/the payload is written unchanged");
    int64_t m = vf_range("bytes received", 0, MAXLEN + 6);
    vf_assume(m <= h + n);
    mp::unpacker p;
    mp::object_handle o, o2;
    bool got = receive(p, b.data(), m, o);
    vf_assert(got == (m == h + n), "C20/a value is delivered exactly when it has arrived completely");
    if (got) {
        const mp::object& v = o.get();
        vf_assert(v.type == (kind == BIN ? mp::type::BIN : kind == STR ? mp::type::STR : mp::type::EXT), "C20/the kind is read back");
        vf_assert((int64_t)(kind == BIN ? v.via.bin.size : kind == STR ? v.via.str.size : v.via.ext.size) == n, "C20/the length is read back");
        if (kind == EXT) vf_assert(v.via.ext.type() == type, "C20/the type of an extension is read back");
        const char* q = kind == BIN ? v.via.bin.ptr : kind == STR ? v.via.str.ptr : v.via.ext.data();
        if (k < n) vf_assert((uint8_t)q[k] == payload[k], "C20/the payload is delivered unchanged");
        vf_assert(p.nonparsed_size() == 0 && !p.next(o2), "C20/reading a value consumes the bytes written");
    }
    vf_free(payload);
}
VF_HARNESS(l_str) { body(STR); vf_cover("l_str:end"); }
VF_HARNESS(l_bin) { body(BIN); vf_cover("l_bin:end"); }
VF_HARNESS(l_ext) { body(EXT); vf_cover("l_ext:end"); }

// a buffer that already holds data
VF_HARNESS(l_append) {
    mp::sbuffer b(0);
    int64_t cap = vf_range("capacity", 0, 1LL << 46), size = vf_range("size", 0, 1LL << 46), n = vf_range("length", 0, 1LL << 46);
    vf_assume(size <= cap && (cap > 0 || n > 0));
#ifndef VF_VERIFIER
    vf_assume(cap <= 1 << 20 && n <= 1 << 20);
#endif
    uint8_t* before = vf_alloc(size + 1);
    uint8_t* more = vf_alloc(n + 1);
    vf_fill_bytes("held", before, size);
    vf_fill_bytes("appended", more, n);
    if (cap > 0) { b.m_data = (char*)vf_count_malloc((size_t)cap); memcpy(b.m_data, before, (size_t)size); }
    b.m_size = (size_t)size;
    b.m_alloc = (size_t)cap;
    b.write((const char*)more, (size_t)n);
    int64_t k = vf_range("byte", 0, 1LL << 47);
    vf_assert((int64_t)b.size() == size + n && b.m_size <= b.m_alloc, "C20/appending adds exactly the bytes given");
    if (k < size) vf_assert(at(b, k) == before[k], "C20/appending keeps what the buffer holds");
    else if (k < size + n) vf_assert(at(b, k) == more[k - size], "C20/appending adds exactly the bytes given");
    vf_assert(b.m_alloc == 0 || vf_accessible(b.data(), (int64_t)b.m_alloc), "C20/the buffer has the capacity it states");
    vf_free(before);
    vf_free(more);
    vf_cover("l_append:end");
}

// the zone: any state of its current chunk
VF_HARNESS(z_alloc) {
    mp::zone z;
    int64_t room = vf_range("room", 0, 8192), size = vf_range("size", 0, 24LL * 2 * MAXLEN);
    bool byte = vf_bool("unaligned");
    vf_assume(room <= (int64_t)z.m_chunk_list.m_free);
    z.m_chunk_list.m_ptr += z.m_chunk_list.m_free - (size_t)room;
    z.m_chunk_list.m_free = (size_t)room;
    char* was = z.m_chunk_list.m_ptr;
#ifndef VF_VERIFIER
    vf_assume(size <= 1 << 22);
#endif
    char* p;
    if (byte) p = (char*)z.allocate_align((size_t)size, 1);
    else p = (char*)z.allocate_align((size_t)size, 8);
    vf_assert(vf_accessible(p, size), "C20,C22/the zone hands out as many bytes as asked for");
    vf_assert(byte || ((uintptr_t)p & 7) == 0, "C22/the zone hands out aligned blocks");
    vf_assert(z.m_chunk_list.m_ptr == p + size && vf_accessible(z.m_chunk_list.m_ptr, (int64_t)z.m_chunk_list.m_free), "C20,C22/a block is not handed out twice");
    bool same = z.m_chunk_list.m_head->m_next == 0;
    if (same) vf_assert(p - was >= 0, "C20,C22/a block is not handed out twice");
    if (same) vf_cover("z_alloc:same chunk"); else vf_cover("z_alloc:new chunk");
}

// two messages, as the dispatchers read them: the first may be incomplete, its value may still be in use
VF_HARNESS(l_two) {
    int64_t n1 = vf_range("length 1", 0, MAXLEN), n2 = vf_range("length 2", 0, MAXLEN), k1 = vf_range("byte 1", 0, MAXLEN), k2 = vf_range("byte 2", 0, MAXLEN);
#ifndef VF_VERIFIER
    vf_assume(n1 <= 1 << 20 && n2 <= 1 << 20);
#endif
    uint8_t* a = vf_alloc(n1 + 5);
    uint8_t* b = vf_alloc(n2 + 5);
    a[0] = 0xdb; a[1] = (uint8_t)(n1 >> 24); a[2] = (uint8_t)(n1 >> 16); a[3] = (uint8_t)(n1 >> 8); a[4] = (uint8_t)n1;
    b[0] = 0xc6; b[1] = (uint8_t)(n2 >> 24); b[2] = (uint8_t)(n2 >> 16); b[3] = (uint8_t)(n2 >> 8); b[4] = (uint8_t)n2;
    vf_fill_bytes("first", a + 5, n1);
    vf_fill_bytes("second", b + 5, n2);
    int64_t m = vf_range("bytes received", 0, MAXLEN + 5);
    vf_assume(m <= n1 + 5);
    mp::unpacker p;
    mp::object_handle o1, o2;
    bool got1 = receive(p, (const char*)a, m, o1);
    vf_assert(got1 == (m == n1 + 5), "C20/a value is delivered exactly when it has arrived completely");
    if (!got1) { p.reset(); p.remove_nonparsed_buffer(); }
    bool kept = vf_bool("first value still in use");
    if (!kept) { mp::object_handle gone(std::move(o1)); }
    bool got2 = receive(p, (const char*)b, n2 + 5, o2);
    vf_assert(got2 && o2.get().type == mp::type::BIN && (int64_t)o2.get().via.bin.size == n2, "C20/a value that follows another one is read back");
    if (k2 < n2) vf_assert((uint8_t)o2.get().via.bin.ptr[k2] == b[5 + k2], "C20/the payload is delivered unchanged");
    if (got1 && kept && k1 < n1) vf_assert((uint8_t)o1.get().via.str.ptr[k1] == a[5 + k1], "C20,C22/a value in use is not overwritten by a later message");
    vf_free(a);
    vf_free(b);
    if (!got1) vf_cover("l_two:incomplete"); else if (kept) vf_cover("l_two:kept"); else vf_cover("l_two:released");
}
