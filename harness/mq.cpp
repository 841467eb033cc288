/* Contracts of the queue operations over an arbitrary queue state satisfying the representation invariant
 *     0<=n<=N, 0<=f, every size>=1, f + sum(sizes[0..n)) <= N*S, total = 8*(N+3)+N*S
 * and the abstraction  messages = [ data[f+sum(sizes[0..i)) .. +sizes[i]) : i<n ].
 * Every quantity is symbolic: geometry, occupancy, sizes, bytes, message length, buffer length. */
#include "mq_env.h"
using namespace veigar;

#ifndef VF_VERIFIER
#define MAXCAP ((int64_t)1 << 16)
#else
#define MAXCAP ((int64_t)1 << 46)
#endif

static void unchanged(const Rep& r, const uint8_t* old, const char* what) {
    const int64_t* ow = (const int64_t*)old;
    vf_assert(r.w[0] == ow[0] && r.w[1] == ow[1] && r.w[2] == ow[2], what);
    if (r.n > 0) {
        int64_t i = vf_range("i", 0, r.n - 1);
        int64_t si = ow[3 + i];
        vf_assert(r.sizes[i] == si, what);
        int64_t j = vf_range("j", 0, si - 1);
        int64_t o = r.f + vf_sum(ow + 3, i) + j;
        vf_assert(r.data[o] == old[8 * (r.N + 3) + o], what);
    }
}

struct Setup {
    Rep r;
    int64_t sum;
    MessageQueue* q;
    uint8_t* old;
    int64_t* oldSizes;
    uint8_t* oldData;
};

static Setup setup() {
    Setup s;
    s.r = arbitraryQueue(INT32_MAX, INT32_MAX, MAXCAP);
    s.sum = vf_sum(s.r.sizes, s.r.n);
    s.q = new MessageQueue((int32_t)s.r.N, (int32_t)s.r.S);
    bool opened = s.q->open("q");
    vf_assert(opened, "open");
    s.old = (uint8_t*)vf_snapshot(s.r.base, s.r.total);
    s.oldSizes = (int64_t*)s.old + 3;
    s.oldData = s.old + 8 * (s.r.N + 3);
    return s;
}

VF_HARNESS(push) {
    Setup s = setup();
    Rep& r = s.r;
    int64_t size = vf_range("dataSize", 1, MAXCAP * 2);
    uint8_t* msg = vf_alloc(size);
    vf_fill_bytes("msg", msg, size);
    bool ok = s.q->pushBack(msg, size);
    bool fits = r.n < r.N && s.sum + size <= r.cap;
    vf_assert(ok == fits, "C03/accept-iff-fits");
    if (!ok) {
        unchanged(r, s.old, "C03C01/failed-push-changes-nothing");
        vf_cover("push:rejected");
        return;
    }
    int64_t n2 = r.w[1], f2 = r.w[2];
    vf_assert(r.w[0] == r.total, "C02/total-unchanged");
    vf_assert(n2 == r.n + 1, "C01C03/count+1");
    vf_assert(r.sizes[r.n] == size, "C01C03/new-size");
    int64_t sum2 = vf_sum(r.sizes, n2);
    vf_assert(f2 >= 0 && f2 + sum2 <= r.cap, "C02/invariant-layout");
    vf_assert(sum2 == s.sum + size, "C03/bytes-accounted");
    int64_t k = vf_range("k", 0, size - 1);
    vf_assert(r.data[f2 + vf_sum(r.sizes, r.n) + k] == msg[k], "C01/new-bytes");
    if (r.n > 0) {
        // an arbitrary byte of an arbitrary earlier message
        int64_t i = vf_range("i", 0, r.n - 1);
        int64_t si = s.oldSizes[i];
        vf_assert(r.sizes[i] == si, "C01C02/old-size-kept");
        int64_t j = vf_range("j", 0, si - 1);
        int64_t o1 = r.f + vf_sum(s.oldSizes, i) + j, o2 = f2 + vf_sum(r.sizes, i) + j;
        vf_assert(r.data[o2] == s.oldData[o1], "C01C02/old-bytes-kept");
        vf_cover("push:accepted-behind");
    }
    vf_cover("push:accepted");
}

VF_HARNESS(pushbad) {
    Setup s = setup();
    int64_t size = vf_range("dataSize", INT64_MIN, 1 << 20);
    uint8_t* msg = nullptr;
    if (vf_bool("haveData")) {
        vf_assume(size <= 0);
        msg = vf_alloc(8);
    }
    bool ok = s.q->pushBack(msg, size);
    vf_assert(!ok, "C01C03/nothing-to-send-is-rejected");
    unchanged(s.r, s.old, "C03C01/failed-push-changes-nothing");
    vf_cover("pushbad:end");
}

VF_HARNESS(space) {
    Setup s = setup();
    Rep& r = s.r;
    int64_t size = vf_range("dataSize", 1, MAXCAP * 2);
    bool waitable = vf_bool("w0");
    bool enough = s.q->checkSpaceSufficient(size, waitable);
    bool fits = r.n < r.N && s.sum + size <= r.cap;
    vf_assert(enough == fits, "C03/space-check-exact");
    vf_assert(enough || waitable == (size <= r.cap), "C03/waitable-iff-can-ever-fit");
    unchanged(r, s.old, "C03/space-check-changes-nothing");
    if (enough) vf_cover("space:yes");
    else vf_cover("space:no");
}

VF_HARNESS(pop) {
    Setup s = setup();
    Rep& r = s.r;
    int64_t bufSize = vf_range("bufSize", 0, MAXCAP * 2);
    uint8_t* buf = vf_alloc(bufSize);
    vf_fill_bytes("buf", buf, bufSize);
    uint8_t* oldBuf = (uint8_t*)vf_snapshot(buf, bufSize);
    bool null = vf_bool("nullBuf");
    int64_t written = vf_range("w0", INT64_MIN, INT64_MAX);
    bool ok = s.q->popFront(null ? nullptr : buf, bufSize, written);
    int64_t s0 = r.n > 0 ? s.oldSizes[0] : 0;
    bool can = r.n > 0 && !null && s0 <= bufSize;
    vf_assert(ok == can, "C03/pop-iff-message-and-room");
    vf_assert(written == s0, "C03C01/reported-size");
    if (!ok) {
        unchanged(r, s.old, "C03C01/failed-pop-changes-nothing");
        if (r.n > 0) vf_cover("pop:small-buffer");
        else vf_cover("pop:empty");
        return;
    }
    int64_t n2 = r.w[1], f2 = r.w[2];
    vf_assert(r.w[0] == r.total, "C02/total-unchanged");
    vf_assert(n2 == r.n - 1, "C01C03/count-1");
    int64_t k = vf_range("k", 0, s0 - 1);
    vf_assert(buf[k] == s.oldData[r.f + k], "C01/popped-bytes");
    if (s0 < bufSize) {
        int64_t t = vf_range("t", s0, bufSize - 1);
        vf_assert(buf[t] == oldBuf[t], "C02/bytes-beyond-message-untouched");
    }
    int64_t sum2 = vf_sum(r.sizes, n2);
    vf_assert(sum2 == s.sum - s0, "C03/bytes-accounted");
    vf_assert(f2 >= 0 && f2 + sum2 <= r.cap, "C02/invariant-layout");
    if (n2 > 0) {
        int64_t i = vf_range("i", 0, n2 - 1);
        int64_t si = s.oldSizes[i + 1];
        vf_assert(r.sizes[i] == si, "C01C02/remaining-sizes-in-order");
        int64_t j = vf_range("j", 0, si - 1);
        int64_t o1 = r.f + vf_sum(s.oldSizes, i + 1) + j, o2 = f2 + vf_sum(r.sizes, i) + j;
        vf_assert(r.data[o2] == s.oldData[o1], "C01C02/remaining-bytes-kept");
        vf_cover("pop:more-behind");
    }
    vf_cover("pop:taken");
}

VF_HARNESS(num) {
    Setup s = setup();
    int64_t n = s.q->msgNumber();
    vf_assert(n == s.r.n, "C01C03/message-number");
    unchanged(s.r, s.old, "C03/query-changes-nothing");
    vf_cover("num:end");
}
