// Specification primitives.  Under irvc these are interpreted by the verification-condition generator;
// natively (native_rt.cpp) they replay one concrete counterexample against the compiled real code.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t v_nd(const char *name, int bits);          // arbitrary value
long double v_real(const char *name);               // arbitrary (finite) real
void v_assume(bool c);                              // precondition
void v_assert(bool c, const char *label);           // obligation
void *v_bytes(size_t n, const char *name);          // fresh object of n arbitrary bytes
void *v_words(size_t n, const char *name);            // same, for objects accessed as whole fields of 8-byte aligned records
uint64_t v_choose(uint64_t n, const char *name);    // case split 0..n-1
void v_cover(const char *name);                     // vacuity guard: must be reachable
int v_engine();
void v_cfg(const char *key, long val);
uint64_t v_concrete(uint64_t x);                    // case split over the feasible values of x
void v_note(const char *name, uint64_t x);
void v_print(const char *name, uint64_t x);
int v_freed(const void *p);
size_t v_objsize(const void *p);
uint64_t v_uf(const char *name, uint64_t a, uint64_t b); // uninterpreted function
void v_stop() __attribute__((noreturn));
void v_abort_ok(int n);
uint64_t v_live_heap();
void v_assumed(const char *text);
void v_havoc(void *p, size_t n, const char *name);  // overwrite with arbitrary bytes
}
#define STUB(target) __attribute__((annotate("stub:" target), used, noinline))
#define STUB_FOR(filter, target) __attribute__((annotate("stub[" filter "]:" target), used, noinline))
#define ENTRY extern "C" __attribute__((used, noinline)) void
static inline uint8_t nd8(const char *n) { return (uint8_t)v_nd(n, 8); }
static inline uint16_t nd16(const char *n) { return (uint16_t)v_nd(n, 16); }
static inline uint32_t nd32(const char *n) { return (uint32_t)v_nd(n, 32); }
static inline uint64_t nd64(const char *n) { return v_nd(n, 64); }
static inline bool ndb(const char *n) { return v_nd(n, 1) & 1; }
