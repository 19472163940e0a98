// C01/C02/C03: bit manipulation, integer traits, IEEE-754 decomposition.
#include "rs.h"
#include <rofl/common/bit_manip.h>
#include <rofl/common/numeric_traits.h>
#include <cmath>
#include <limits>
using namespace rofl;

// ---- C01
// n is the number of leading zeros of x (w bits)
template <typename U> static bool isNlz(U x, int64_t n) {
  const int w = sizeof(U) * 8;
  uint64_t v = x;
  // x >> (w-n) == 0  and, unless x == 0, bit w-1-n is set
  bool range = (n >= 0) & (n <= w);
  uint64_t hi = rs_ite(n <= 0, 0, (uint64_t)(v >> (unsigned)((w - n) & 63)));
  hi = rs_ite(w - n >= 64, 0, hi);
  bool zeros = hi == 0;
  bool one = rs_ite(n < w, (v >> (unsigned)((w - 1 - n) & 63)) & 1, 1) == 1;
  bool zero = (n < w) | (v == 0);
  return range & zeros & one & zero;
}
static inline bool pow2u(uint64_t v) { return (v != 0) & ((v & (v - 1)) == 0); }

template <typename U, typename R> static void nlzT(R (*f)(U), const char* nm, const char* m) {
  U x = rs_any<U>(nm);
  int64_t n = (int64_t)f(x);
  rs_observe("n", (uint64_t)n);
  rs_check(isNlz<U>(x, n), m);
}
RS_ENTRY(nlz_all) {
  nlzT<uint8_t>(nlz8, "x8", "nlz8 counts the leading zeros");
  nlzT<uint16_t>(nlz16, "x16", "nlz16 counts the leading zeros");
  nlzT<uint32_t>(nlz32, "x32", "nlz32 counts the leading zeros");
  nlzT<uint64_t>(nlz64, "x64", "nlz64 counts the leading zeros");
}
template <typename U> static void flpT(U (*f)(U), const char* nm) {
  U x = rs_any<U>(nm);
  U r = f(x);
  rs_observe("r", r);
  // largest power of two <= x ; 0 for x == 0
  bool ok = rs_ite(x == 0, r == 0, pow2u(r) & (r <= x) & ((uint64_t)(x - r) < (uint64_t)r)) != 0;
  rs_check(ok, "flp2 is the largest power of two not above the argument");
}
RS_ENTRY(flp2_all) {
  flpT<uint8_t>(flp2u8, "x8");
  flpT<uint16_t>(flp2u16, "x16");
  flpT<uint32_t>(flp2u32, "x32");
  flpT<uint64_t>(flp2u64, "x64");
}
template <typename U> static void clpT(U (*f)(U), const char* nm) {
  U x = rs_any<U>(nm);
  U r = f(x);
  rs_observe("r", r);
  const U top = (U)((U)1 << (sizeof(U) * 8 - 1));
  // smallest power of two >= x; 0 when there is none (or x == 0)
  bool none = (x == 0) | (x > top);
  bool ok = rs_ite(none, r == 0, pow2u(r) & (r >= x) & ((U)(r / 2) < x)) != 0;
  rs_check(ok, "clp2 is the smallest power of two not below the argument");
}
RS_ENTRY(clp2_all) {
  clpT<uint8_t>(clp2u8, "x8");
  clpT<uint16_t>(clp2u16, "x16");
  clpT<uint32_t>(clp2u32, "x32");
  clpT<uint64_t>(clp2u64, "x64");
}

// ---- C02
template <typename I> static void traitsT(const char* nm) {
  typedef typename IntegerTraits<I>::UnsignedType U;
  const int w = sizeof(I) * 8;
  I x = rs_any<I>(nm);
  bool neg = x < 0;
  U mag = (U)rs_ite(neg, (U)(0 - (U)x), (U)x);  // |x|
  rs_check(IntegerTraits<I>::BIT_NUM == w, "BIT_NUM is the width of the type");
  I n = nlz<I>(x);
  rs_observe("nlz", (uint64_t)(int64_t)n);
  rs_check(isNlz<U>((U)x, (int64_t)n), "nlz counts the leading zeros of the bit pattern");
  I l = log2Mod<I>(x);
  rs_observe("log2", (uint64_t)(int64_t)l);
  bool lr = (l >= 0) & ((int64_t)l < w);
  uint64_t sh = (uint64_t)(U)mag >> ((unsigned)l & 63);
  rs_check((x == 0) | (lr & (sh == 1)), "log2Mod is floor(log2(|x|))");
  I f = floorPow2<I>(x);
  I c = ceilPow2<I>(x);
  rs_observe("f", (uint64_t)(int64_t)f);
  rs_observe("c", (uint64_t)(int64_t)c);
  U fm = (U)rs_ite(f < 0, (U)(0 - (U)f), (U)f), cm = (U)rs_ite(c < 0, (U)(0 - (U)c), (U)c);
  // floorPow2: closest (signed) power of two from below, ceilPow2: from above
  rs_check((x != 0) | ((f == 0) & (c == 0)), "floorPow2(0) = ceilPow2(0) = 0");
  bool fpos = pow2u(fm) & (f <= x) & ((uint64_t)(U)((U)x - (U)f) < (uint64_t)fm);
  bool fneg = (f < 0) & pow2u(fm) & (f <= x) & ((U)(fm / 2) < mag);
  rs_check((x == 0) | (rs_ite(neg, fneg, fpos) != 0), "floorPow2 is the largest signed power of two <= x");
  const U top = std::is_signed<I>::value ? (U)((U)1 << (w - 2)) : (U)((U)1 << (w - 1));
  bool representable = neg | ((U)x <= top);
  bool cpos = (c > 0) & pow2u(cm) & (c >= x) & ((U)(cm / 2) < mag);
  bool cneg = (c < 0) & pow2u(cm) & (c >= x) & ((uint64_t)(U)(mag - cm) < (uint64_t)cm);
  rs_check((x == 0) | !representable | (rs_ite(neg, cneg, cpos) != 0), "ceilPow2 is the smallest signed power of two >= x");
}
RS_ENTRY(traits_i8) { traitsT<int8_t>("x"); }
RS_ENTRY(traits_u8) { traitsT<uint8_t>("x"); }
RS_ENTRY(traits_i16) { traitsT<int16_t>("x"); }
RS_ENTRY(traits_u16) { traitsT<uint16_t>("x"); }
RS_ENTRY(traits_i32) { traitsT<int32_t>("x"); }
RS_ENTRY(traits_u32) { traitsT<uint32_t>("x"); }
RS_ENTRY(traits_i64) { traitsT<int64_t>("x"); }
RS_ENTRY(traits_u64) { traitsT<uint64_t>("x"); }

// ---- C03
template <typename F> static void decomp(int MB, int EB, int64_t BIAS) {
  typedef FloatTraits<F> T;
  typedef typename T::IntegerType I;
  typedef typename T::UnsignedType U;
  F f = rs_any<F>("f");
  U bits = rs_bits(f);
  I m, e;
  bool s;
  T::decompose(f, m, e, s);
  rs_observe("m", (uint64_t)m);
  rs_observe("e", (uint64_t)(int64_t)e);
  rs_observe("s", s);
  U frac = bits & (((U)1 << MB) - 1);
  U ex = (bits >> MB) & (((U)1 << EB) - 1);
  rs_check((U)m == frac, "mantissa is the stored fraction");
  rs_check((int64_t)e == (int64_t)ex - BIAS, "exponent is unbiased");
  rs_check(s == ((bits >> (MB + EB)) == 1), "sign bit");
  rs_check(T::toInt(f) == bits, "toInt is the bit pattern");
  F g = T::compose(m, e, s);
  rs_check(rs_bits(g) == bits, "compose(decompose(f)) is f bit by bit");
  rs_check((T::BIT_NUM == (int)sizeof(F) * 8) & (T::MANTISSA_BITS == MB) & (T::EXPONENT_BITS == EB) & (T::EXPONENT_BIAS == BIAS), "field widths match the format");
  rs_check((U)T::MANTISSA_MASK == (U)(((U)1 << MB) - 1), "MANTISSA_MASK");
  rs_check((U)T::MANTISSA_IMPLICIT_BIT == (U)1 << MB, "MANTISSA_IMPLICIT_BIT");
  rs_check((U)T::EXPONENT_MASK == (U)((((U)1 << EB) - 1) << MB), "EXPONENT_MASK");
  rs_check((U)T::SIGN_MASK == (U)1 << (MB + EB), "SIGN_MASK");
  rs_check((int64_t)T::EXPONENT_MIN == -BIAS, "EXPONENT_MIN");
  rs_check((int64_t)T::EXPONENT_MAX == (int64_t)(((int64_t)1 << EB) - 1) - BIAS, "EXPONENT_MAX");
}
template <typename F> static void comp(int MB, int EB, int64_t BIAS) {
  typedef FloatTraits<F> T;
  typedef typename T::IntegerType I;
  // any mantissa / exponent of the format composes to the number with these fields
  I m = rs_any<I>("m"), e = rs_any<I>("e");
  bool s = rs_bool("s");
  rs_assume((m >= 0) & (m < ((I)1 << MB)) & ((int64_t)e >= -BIAS) & ((int64_t)e <= BIAS + 1));
  F f = T::compose(m, e, s);
  I m2, e2;
  bool s2;
  T::decompose(f, m2, e2, s2);
  rs_observe("bits", rs_bits(f));
  rs_check((m2 == m) & (e2 == e) & (s2 == s), "decompose(compose(m,e,s)) is (m,e,s)");
}
RS_ENTRY(decomp_f) { decomp<float>(23, 8, 127); }
RS_ENTRY(decomp_d) { decomp<double>(52, 11, 1023); }
RS_ENTRY(comp_f) { comp<float>(23, 8, 127); }
RS_ENTRY(comp_d) { comp<double>(52, 11, 1023); }
