/* Contract of the msgpack stream decoder (veigar_msgpack::unpacker) and of veigar_msgpack::clone, as executable stubs, and the
 * ghost state of a thread that receives messages.  In harness TUs only.
 *
 *   reserve_buffer(n)     room for n more bytes, or std::bad_alloc
 *   buffer_consumed(n)    the n bytes written to the buffer belong to the input; n is at most the capacity
 *   next(h)               the next complete object of the input, or nothing (incomplete input stays pending), or an exception
 *                         (the decoder stays in the middle of something)
 *   reset()               forget a half decoded object;   remove_nonparsed_buffer()   forget the bytes not decoded yet */
#ifndef GLUE_MSGPACK_H_
#define GLUE_MSGPACK_H_
#include "veigar/msgpack.hpp"
namespace mp = veigar_msgpack;

namespace g {
struct Recv {
    bool live; const void* unp;
    int stage;               // 0: no input, 1: input of the last message, 2: the input ended or was rejected, 3: the input was thrown away
    bool dirty, left;        // half decoded object; bytes that were not decoded
    int64_t cap;
    char buf;
    // the message being received
    bool signal, lockFailed, lockedOnce, popped, stopSeen; int64_t need, size;
    int64_t waiting;         // messages in the queue when its lock was acquired, negative: the queue cannot be read
    int objects;             // objects decoded from it
    bool waited;             // the thread got as far as waiting for a message
};
static Recv* r;
static void initRecv(Recv* x) {
    r = x;
    r->live = false; r->unp = nullptr; r->stage = 0; r->dirty = r->left = false; r->cap = 0;
    r->signal = r->lockFailed = r->lockedOnce = r->popped = r->stopSeen = false; r->need = r->size = r->waiting = 0; r->objects = 0; r->waited = false;
}
static void clearRecv() {
    r->signal = r->lockFailed = r->lockedOnce = r->popped = r->stopSeen = false; r->need = r->size = r->waiting = 0; r->objects = 0;
}
static void nextObject(mp::object& o);                 // unit: an arbitrary object
static void cloned(const mp::object& o, mp::object& c);   // unit
static void own(const void* u) { vf_assert(r->live && u == r->unp, "C22/the decoder exists"); }

static void lockTried(bool ok) {
    if (!ok) { r->lockFailed = true; return; }
    r->lockedOnce = true;
    r->waiting = vf_range("messages", -1, 1 << 30);
}
static bool popInto(Queue& q, void* buf, int64_t n, int64_t& written) {
    vf_assert(r->live && buf == &r->buf && n >= 0 && n <= r->cap, "C22/a message is received into the buffer of the decoder");
    vf_assert(r->stage != 1, "C11,C12/a message is decoded before the next one is received");
    vf_assert(!r->dirty && !r->left, "C11,C12/leftovers of a message do not affect the next one");
    vf_assert(r->need == 0 || n >= r->need, "C09,C11,C12/a message larger than the buffer is taken once the buffer is large enough");
    if (r->waiting <= 0) { written = vf_range("error", -1, 0); return false; }     // no message, or the queue cannot be read
    int64_t s = r->need > 0 ? r->need : vf_range("message size", 1, (int64_t)1 << 46);
    written = s;
    if (s > n) { r->need = s; return false; }
    r->need = 0;
    r->popped = true;
    r->size = s;
    return true;
}
// what holds when a message has been dealt with
static void receivedAll(Queue& q) {
    if (r->signal && !r->stopSeen) {
        if (!r->lockedOnce) vf_assert(q.notifies == 1, "C09/a read signal that was consumed without taking a message is given back");
        else {
            bool left = r->waiting > 0 && !r->popped;
            vf_assert(q.notifies == 0 || (left && q.notifies == 1), "C09/no read signal is posted for a message that was taken");
            if (left && !w->thrown) vf_assert(q.notifies == 1, "C09,C11,C12/a waiting message is taken");
        }
    }
    if (!r->signal) vf_assert(q.notifies == 0, "C09/no read signal is posted without a message");
    vf_assert(!q.locked, "C08/every queue lock is released");
    if (r->stage >= 2) vf_assert(!r->dirty && !r->left, "C11,C12/leftovers of a message do not affect the next one");
    if (r->popped) vf_assert((r->stage != 0 && r->stage != 3) || r->objects > 0 || w->thrown, "C11,C12/a received message is decoded");
}
// the thread of a dispatcher has ended
static void ended(bool stop) {
    vf_assert(stop || (!r->waited && w->thrown), "C09,C11,C12,C17/the thread serves its queue until it is told to stop");
}
}  // namespace g

extern "C" {
void vfx__ZN14veigar_msgpack2v28unpackerC2EPFbNS_2v14type11object_typeEmPvES5_mRKNS2_12unpack_limitE(mp::unpacker* u, void*, void*, size_t n, const void*) {
    g::r->live = true; g::r->unp = u; g::r->stage = 0; g::r->dirty = g::r->left = false;
    g::r->cap = (int64_t)n;
}
void vfx__ZN14veigar_msgpack2v28unpackerD2Ev(mp::unpacker* u) { g::own(u); g::r->live = false; g::r->unp = nullptr; g::r->stage = 0; g::r->dirty = g::r->left = false; }
void vfx__ZN14veigar_msgpack2v26parserINS0_8unpackerENS0_19zone_push_finalizerEE14reserve_bufferEm(mp::unpacker* u, size_t n) {
    g::own(u);
    g::mayThrow();
    int64_t more = vf_range("spare room", 0, (int64_t)1 << 46);
    if (g::r->cap < (int64_t)n) g::r->cap = (int64_t)n + more;
}
char* vfx__ZN14veigar_msgpack2v26parserINS0_8unpackerENS0_19zone_push_finalizerEE6bufferEv(mp::unpacker* u) { g::own(u); return &g::r->buf; }
size_t vfx__ZNK14veigar_msgpack2v26parserINS0_8unpackerENS0_19zone_push_finalizerEE15buffer_capacityEv(const mp::unpacker* u) { g::own(u); return (size_t)g::r->cap; }
void vfx__ZN14veigar_msgpack2v26parserINS0_8unpackerENS0_19zone_push_finalizerEE15buffer_consumedEm(mp::unpacker* u, size_t n) {
    g::own(u);
    vf_assert((int64_t)n <= g::r->cap, "C22/no more input than was received");
    vf_assert(g::r->popped && (int64_t)n == g::r->size, "C11,C12/the input of the decoder is the message");
    g::r->cap -= (int64_t)n;
    g::r->stage = 1;
    g::r->left = true;
}
bool vfx__ZN14veigar_msgpack2v28unpacker4nextERNS_2v113object_handleE(mp::unpacker* u, mp::object_handle& h) {
    g::own(u);
    if (g::r->stage == 1 && vf_bool("a complete object")) {
        mp::object o;
        g::nextObject(o);
        h.set(o);
        if (g::r->objects == 0) g::r->objects = 1;
        return true;
    }
    if (g::r->stage == 1) {
        g::r->stage = 2;
        g::r->left = vf_bool("bytes are left");
        g::r->dirty = vf_bool("a half decoded object");
        if (vf_bool("malformed bytes")) throw mp::parse_error("parse error");
        if (vf_bool("out of memory")) throw std::bad_alloc();
    } else if (g::r->stage == 0) g::r->stage = 2;
    return false;
}
void vfx__ZN14veigar_msgpack2v26parserINS0_8unpackerENS0_19zone_push_finalizerEE5resetEv(mp::unpacker* u) { g::own(u); g::r->dirty = false; }
void vfx__ZN14veigar_msgpack2v26parserINS0_8unpackerENS0_19zone_push_finalizerEE23remove_nonparsed_bufferEv(mp::unpacker* u) {
    g::own(u);
    g::r->left = false;
    if (g::r->stage == 1) g::r->stage = 3;
}
// zones: memory that is freed with the zone
void vfx__ZN14veigar_msgpack2v14zoneC2Em(mp::zone* z, size_t) { *(void**)z = nullptr; }
void vfx__ZN14veigar_msgpack2v14zoneD2Ev(mp::zone* z) {
    void** p = *(void***)z;
    while (p) { void** n = (void**)p[0]; free(p[1]); free(p); p = n; }
}
void* vfx__ZN14veigar_msgpack2v14zone14allocate_alignEmm(mp::zone* z, size_t n, size_t) {
    void** cell = (void**)malloc(2 * sizeof(void*));
    cell[0] = *(void**)z;
    cell[1] = malloc(n);
    *(void**)z = cell;
    return cell[1];
}
void* vfx__ZN14veigar_msgpack2v14zone17allocate_no_alignEm(mp::zone* z, size_t n) { return vfx__ZN14veigar_msgpack2v14zone14allocate_alignEmm(z, n, 1); }
mp::object_handle vfx__ZN14veigar_msgpack2v15cloneERKNS_2v26objectE(const mp::object& o) {
    if (g::w->throwBudget > 0 && vf_bool("out of memory")) { g::w->throwBudget--; g::w->thrown = true; throw std::bad_alloc(); }
    mp::object c;
    g::cloned(o, c);
    return mp::object_handle(c, mp::unique_ptr<mp::zone>());
}
}
#endif
