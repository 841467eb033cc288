/* Specification intrinsics.  The verifier (virc) interprets them symbolically: vf_range/vf_bool/vf_string/vf_fill_* are
 * universally quantified inputs, vf_assume restricts them, vf_assert is a proof obligation.  rt/vf_rt.cpp gives them a
 * native meaning (a recorded or seeded stream of concrete values) so that the same harness, linked with the real objects
 * compiled from /repo, replays a counterexample. */
#ifndef VF_H_
#define VF_H_
#include <cstdint>
#include <cstddef>
#include <string>
extern "C" {
int64_t vf_range(const char* name, int64_t lo, int64_t hi);
bool vf_bool(const char* name);
void vf_assume(bool c);
void vf_assert(bool c, const char* name);
void vf_cover(const char* name);
uint8_t* vf_alloc(int64_t n);
void vf_free(void* p);
void vf_fill_words(const char* name, void* p, int64_t n, int64_t lo, int64_t hi);
void vf_fill_bytes(const char* name, void* p, int64_t n);
void* vf_snapshot(const void* p, int64_t n);
int64_t vf_sum(const void* words, int64_t n);
bool vf_live(const void* p);
int64_t vf_heap_live();
bool vf_accessible(const void* p, int64_t n);
void vf_modifies(const void* p, int64_t n);
bool vf_loop_fn(const char* text);
void vf_watch(const void* p, int64_t n);
void* vf_count_malloc(size_t n);
void vf_count_free(void* p);
void vf_end();
}
std::string vf_string(const char* name) __asm__("vf_string");
bool vf_str_eq(const std::string& a, const std::string& b) __asm__("vf_str_eq");
#define VF_HARNESS(n) extern "C" void vfh_##n()
#endif
