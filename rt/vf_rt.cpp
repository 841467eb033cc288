// Native meaning of the specification intrinsics: replays a recorded stream of inputs, or draws seeded small ones.
// usage: prog <harness> file <stream> | random <seed> <iterations> | near <stream> <seed> <iterations> (draws that prefer recorded values)
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <pthread.h>

namespace {
struct Item { char k; std::string name; std::vector<long long> v; std::string s; };
std::vector<Item> stream;
size_t pos = 0;
std::mt19937_64 rng;
std::vector<std::string> trace;
bool useStream = false, nearMode = false;
std::map<std::string, std::vector<size_t>> byName;
std::map<std::string, size_t> used;
long heapLive = 0;

const Item* next(char k, const char* name) {
    if (nearMode) {
        auto it = byName.find(std::string(1, k) + name);
        if (it == byName.end() || rng() % 5 == 0) return nullptr;
        size_t& u = used[it->first];
        size_t n = it->second.size();
        size_t at = u < n && rng() % 4 ? u : rng() % n;
        u++;
        return &stream[it->second[at]];
    }
    if (!useStream) return nullptr;
    for (size_t q = pos; q < stream.size() && q < pos + 60; q++)
        if (stream[q].k == k && stream[q].name == name) { pos = q + 1; return &stream[q]; }
    return nullptr;     // the program asks for something the verifier did not (an over-approximated state): draw it
}
int64_t draw(int64_t lo, int64_t hi) {
    if (lo >= hi) return lo;
    unsigned __int128 span = (unsigned __int128)((__int128)hi - lo) + 1;
    switch (rng() % 12) {
        case 0: return hi;
        case 1: return lo;
        case 2: return (int64_t)((__int128)lo + (__int128)((((unsigned __int128)rng() << 64) | rng()) % span));
        case 3: if (lo <= 0 && hi >= 0) return 0;  // fallthrough
        case 4: if (lo <= -1 && hi >= -1) return -1;  // fallthrough
        default: {
            int64_t base = (lo < 0 && hi >= 0) ? ((rng() & 3) ? 0 : lo) : lo;
            unsigned __int128 m = (unsigned __int128)((__int128)hi - base) + 1;
            unsigned __int128 w = 1 + rng() % 12;
            if (w > m) w = m;
            return (int64_t)((__int128)base + (__int128)(rng() % (uint64_t)w));
        }
    }
}
void note(const char* name, const std::string& v) { if (trace.size() < 400) trace.push_back(std::string(name) + "=" + v); }
[[noreturn]] void fail(const char* name) {
    printf("VF-FAIL %s\n", name);
    for (auto& t : trace) printf("  %s\n", t.c_str());
    fflush(stdout);
    _exit(41);
}
}  // namespace

extern "C" {
int64_t vf_range(const char* name, int64_t lo, int64_t hi) {
    if (lo > hi) _exit(42);
    int64_t v;
    if (const Item* it = next('i', name)) { v = it->v[0]; if (v < lo || v > hi) v = v < lo ? lo : hi; }
    else v = draw(lo, hi);
    note(name, std::to_string(v));
    return v;
}
bool vf_bool(const char* name) {
    bool v;
    if (const Item* it = next('i', name)) v = it->v[0] != 0;
    else v = rng() & 1;
    note(name, v ? "1" : "0");
    return v;
}
void vf_assume(bool c) { if (!c) _exit(42); }
void vf_assert(bool c, const char* name) { if (!c) fail(name); }
void vf_cover(const char*) {}
static std::map<void*, size_t> mapped;
uint8_t* vf_alloc(int64_t n) {
    if (n <= ((int64_t)1 << 26)) return (uint8_t*)malloc(n > 0 ? (size_t)n : 1);
    if (n > ((int64_t)1 << 32)) _exit(43);
    void* p = mmap(nullptr, (size_t)n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) _exit(43);
    mapped[p] = (size_t)n;
    return (uint8_t*)p;
}
void vf_free(void* p) {
    auto i = mapped.find(p);
    if (i == mapped.end()) { free(p); return; }
    munmap(p, i->second);
    mapped.erase(i);
}
void vf_fill_words(const char* name, void* p, int64_t n, int64_t lo, int64_t hi) {
    const Item* it = next('w', name);
    std::string t;
    for (int64_t i = 0; i < n && i < 100000; i++) {
        int64_t v = it && (size_t)i < it->v.size() ? it->v[i] : draw(lo, hi);
        ((int64_t*)p)[i] = v;
        if (i < 16) t += std::to_string(v) + ",";
    }
    note(name, t);
}
void vf_fill_bytes(const char* name, void* p, int64_t n) {
    const Item* it = next('w', name);
    std::string t;
    for (int64_t i = 0; i < n && i < 10000000; i++) {
        uint8_t v = it && (size_t)i < it->v.size() ? (uint8_t)it->v[i] : (uint8_t)rng();
        ((uint8_t*)p)[i] = v;
        if (i < 32) t += std::to_string(v) + ",";
    }
    note(name, t);
}
void* vf_snapshot(const void* p, int64_t n) {
    if (n > ((int64_t)1 << 28)) _exit(43);
    void* q = malloc(n > 0 ? (size_t)n : 1);
    memcpy(q, p, (size_t)n);
    return q;
}
int64_t vf_sum(const void* words, int64_t n) {
    __int128 s = 0;
    for (int64_t i = 0; i < n; i++) s += ((const int64_t*)words)[i];
    return (int64_t)s;
}
int __asan_address_is_poisoned(void const volatile*);
bool vf_live(const void* p) { return p && !__asan_address_is_poisoned(p); }
void* __asan_region_is_poisoned(void* beg, size_t size);
bool vf_accessible(const void* p, int64_t n) { return p && n >= 0 && !__asan_region_is_poisoned((void*)p, (size_t)n); }
void vf_modifies(const void*, int64_t) {}
bool vf_loop_fn(const char*) { return false; }
int64_t vf_heap_live() { return heapLive; }
int vf_real_lock(void* m) { return pthread_mutex_lock((pthread_mutex_t*)m); }
int vf_real_unlock(void* m) { return pthread_mutex_unlock((pthread_mutex_t*)m); }
void vf_watch(const void*, int64_t) {}
void vf_end() { _exit(0); }
void* vf_count_malloc(size_t n) { void* p = malloc(n); if (p) heapLive++; return p; }
void vf_count_free(void* p) { if (p) heapLive--; free(p); }
}
std::string vf_string(const char* name) {
    std::string v;
    if (const Item* it = next('s', name)) v = it->s;
    else {
        static const char* c[] = {"", "a", "b", "ab", "a1", "1", "11", "12", "x", "ch", "abc", "_", "\xff"};
        v = c[rng() % (sizeof(c) / sizeof(*c))];
        if (rng() % 4 == 0) v += c[rng() % (sizeof(c) / sizeof(*c))];
    }
    note(name, "\"" + v + "\"");
    return v;
}
bool vf_str_eq(const std::string& a, const std::string& b) { return a == b; }

int main(int argc, char** argv) {
    if (argc < 4) return 2;
    std::string fn = std::string("vfh_") + argv[1];
    auto f = (void (*)())dlsym(RTLD_DEFAULT, fn.c_str());
    if (!f) { fprintf(stderr, "no harness %s\n", fn.c_str()); return 2; }
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    std::string mode = argv[2];
    bool near = mode == "near";
    if (mode == "file" || near) {
        std::ifstream in(argv[3]);
        std::string line;
        auto unhex = [](const std::string& h) { std::string o; for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16); return o; };
        while (std::getline(in, line)) {
            if (line.empty()) continue;
            Item it; it.k = line[0];
            std::istringstream is(line.substr(1));
            std::string h;
            is >> h;
            it.name = unhex(h.substr(1));
            if (it.k == 's') { h.clear(); is >> h; it.s = unhex(h); }
            else { long long x; while (is >> x) it.v.push_back(x); }
            byName[std::string(1, it.k) + it.name].push_back(stream.size());
            stream.push_back(it);
        }
        if (!near) {
            useStream = true;
            rng.seed(1);
            f();
            printf("VF-OK\n");
            fflush(stdout);
            _exit(0);
        }
        nearMode = true;
        argv++; argc--;
    }
    uint64_t seed = strtoull(argv[3], nullptr, 10);
    long iters = argc > 4 ? atol(argv[4]) : 1000;
    long limit = argc > 5 ? atol(argv[5]) : 40;
    time_t t0 = time(nullptr);
    long ran = 0, skipped = 0;
    for (long i = 0; i < iters && time(nullptr) - t0 < limit; i++) {
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            alarm(5);
            rng.seed(seed * 1000003ull + (uint64_t)i);
            f();
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        ran++;
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 42 || WEXITSTATUS(st) == 43)) { skipped++; continue; }
        if (WIFSIGNALED(st) && (WTERMSIG(st) == 14 || WTERMSIG(st) == 9)) { skipped++; continue; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        printf("VF-RANDOM-FAIL iteration %ld seed %llu status %d\n", i, (unsigned long long)seed, st);
        fflush(stdout);
        return 1;
    }
    printf("VF-RANDOM-OK ran %ld skipped %ld\n", ran, skipped);
    fflush(stdout);
    return 0;
}
