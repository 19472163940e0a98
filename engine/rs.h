// Harness API.  Under the symbolic engine these functions are intercepted by
// name; natively (replay) they are defined in native.cpp and read the concrete
// values of a counterexample from a file.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>

extern "C" {
// fresh symbolic bit-vector of `bits` bits (zero-extended into the result)
uint64_t rs_sym(const char* name, int bits);
// fresh symbolic integer in [lo, hi]
int64_t rs_int(const char* name, int64_t lo, int64_t hi);
// forks: returns a concrete value 0..n-1 on each path
int rs_choose(const char* name, int n);
// symbolic floating point: any bit pattern
float rs_f32(const char* name);
double rs_f64(const char* name);
// real-mode floating point input: any finite value in [lo, hi]
double rs_real(const char* name, double lo, double hi);
float rs_realf(const char* name, float lo, float hi);
// concrete configuration parameter given by the driver
int64_t rs_param(const char* name, int64_t dflt);
void rs_assume(bool c);
void rs_check(bool c, const char* msg);
void rs_observe(const char* tag, uint64_t v);
void rs_observe_d(const char* tag, double v);
// fork until the value is concrete
int64_t rs_concrete(int64_t v);
// 1 under the symbolic engine, 0 natively
int rs_symbolic();
// if-then-else without forking
uint64_t rs_ite(bool c, uint64_t a, uint64_t b);
double rs_ite_d(bool c, double a, double b);
// marks a path as having reached the interesting code (non-vacuity)
void rs_reached(const char* tag);
}

static inline uint8_t rs_u8(const char* n) { return (uint8_t)rs_sym(n, 8); }
static inline uint16_t rs_u16(const char* n) { return (uint16_t)rs_sym(n, 16); }
static inline uint32_t rs_u32(const char* n) { return (uint32_t)rs_sym(n, 32); }
static inline uint64_t rs_u64(const char* n) { return (uint64_t)rs_sym(n, 64); }
static inline int8_t rs_i8(const char* n) { return (int8_t)rs_sym(n, 8); }
static inline int16_t rs_i16(const char* n) { return (int16_t)rs_sym(n, 16); }
static inline int32_t rs_i32(const char* n) { return (int32_t)rs_sym(n, 32); }
static inline int64_t rs_i64(const char* n) { return (int64_t)rs_sym(n, 64); }
static inline bool rs_bool(const char* n) { return rs_sym(n, 1) != 0; }
static inline uint32_t rs_bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline uint64_t rs_bits(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }

template <typename T> static inline T rs_any(const char* n) { return (T)rs_sym(n, sizeof(T) * 8); }
template <> inline float rs_any<float>(const char* n) { return rs_f32(n); }
template <> inline double rs_any<double>(const char* n) { return rs_f64(n); }

#define RS_ENTRY(name) extern "C" void name()
