// Harness API. The same harness source is (a) compiled to LLVM IR and executed symbolically and
// (b) compiled natively (SX_NATIVE) for replaying models against the real code.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
extern "C" {
uint64_t sx_raw(const char *name, int bits);      // unconstrained symbolic bits (zero extended)
double sx_raw_f64(const char *name);              // any double
float sx_raw_f32(const char *name);               // any float
int sx_choice(const char *name, int n);           // explored exhaustively, one path per value
void sx_assume_(int c);
void sx_assert_(int c, const char *msg);
void sx_fail(const char *msg);
void sx_cover(const char *label);
void sx_observe_u(const char *name, uint64_t v);  // compared between encoding and native run
void sx_observe_d(const char *name, double v);
void sx_policy(const char *name, int64_t v);
void sx_kf_region_(const char *id, int cond);     // inputs covered by a listed known finding
int sx_kf_listed(const char *id);
uint64_t sx_concretize_(uint64_t v);
int sx_symbolic(void);                            // 1 in the engine, 0 natively
void sx_print(const char *label, uint64_t v);
void sx_done(void);
}
static inline void sx_assume(bool c) { sx_assume_(c); }
static inline void sx_assert(bool c, const char *m) { sx_assert_(c, m); }
static inline void sx_kf(const char *id, bool c) { sx_kf_region_(id, c); }
static inline uint64_t sx_u(const char *n, int bits) { return sx_raw(n, bits); }
static inline int64_t sx_s(const char *n, int bits) { return (int64_t)(sx_raw(n, bits) << (64 - bits)) >> (64 - bits); }
static inline int sx_int(const char *n) { return (int)sx_raw(n, 32); }
static inline bool sx_bool(const char *n) { return (bool)(sx_raw(n, 1) & 1); }
// integer in [lo, hi]
static inline int sx_range(const char *n, int lo, int hi) {
  int v = (int)sx_raw(n, 32);
  sx_assume_(v >= lo && v <= hi);
  return v;
}
// finite double/float in [lo, hi]
static inline double sx_f64(const char *n, double lo, double hi) {
  double v = sx_raw_f64(n);
  sx_assume_(v >= lo && v <= hi);
  return v;
}
static inline float sx_f32(const char *n, float lo, float hi) {
  float v = sx_raw_f32(n);
  sx_assume_(v >= lo && v <= hi);
  return v;
}
#define ENTRY(name) extern "C" void name()
