// C04/C05/C06: Morton order on integer and floating point vectors.
#include "rs.h"
#include <rofl/common/morton_sort.h>
#include <cmath>
#include <limits>
using namespace rofl;

template <typename I> using UT = typename std::make_unsigned<I>::type;
template <typename I> static inline UT<I> key(I x) {  // order preserving map to unsigned
  return std::is_signed<I>::value ? (UT<I>)((UT<I>)x ^ ((UT<I>)1 << (sizeof(I) * 8 - 1))) : (UT<I>)x;
}
// Z-order by definition: interleave the bits, dimension 0 most significant.
template <typename I, int D> static bool zless(const I* a, const I* b) {
  bool less = false;
  for (int k = 0; k < (int)sizeof(I) * 8; k++)
    for (int d = D - 1; d >= 0; d--) {
      bool x = (key(a[d]) >> k) & 1, y = (key(b[d]) >> k) & 1;
      less = rs_ite(x != y, y, less) != 0;
    }
  return less;
}
template <typename I, int D> static void cmpT() {
  I a[D], b[D];
  for (int d = 0; d < D; d++) { a[d] = rs_any<I>("a"); b[d] = rs_any<I>("b"); }
  bool r = MortonTraits<I, D>::compare(a, b);
  rs_observe("cmp", r);
  rs_check(r == zless<I, D>(a, b), "compare is the bit-interleaved Z-order");
  int dist = MortonTraits<I, D>::distance(a, b);
  rs_observe("dist", (uint64_t)(int64_t)dist);
  UT<I> x = 0;
  for (int d = 0; d < D; d++) x |= key(a[d]) ^ key(b[d]);
  const int w = sizeof(I) * 8;
  uint64_t hi = rs_ite(dist >= 64, 0, (uint64_t)x >> (dist & 63));
  uint64_t top = rs_ite(dist > 0, (uint64_t)x >> ((dist - 1) & 63), 1);
  rs_check((dist >= 0) & (dist <= w) & (hi == 0) & (rs_ite(dist > 0, top & 1, x == 0) != 0), "distance is the height of the smallest common dyadic cell");
}
RS_ENTRY(cmp_i8_2) { cmpT<int8_t, 2>(); }
RS_ENTRY(cmp_u8_2) { cmpT<uint8_t, 2>(); }
RS_ENTRY(cmp_i16_2) { cmpT<int16_t, 2>(); }
RS_ENTRY(cmp_u16_2) { cmpT<uint16_t, 2>(); }
RS_ENTRY(cmp_i32_2) { cmpT<int32_t, 2>(); }
RS_ENTRY(cmp_u32_2) { cmpT<uint32_t, 2>(); }
RS_ENTRY(cmp_i64_2) { cmpT<int64_t, 2>(); }
RS_ENTRY(cmp_u64_2) { cmpT<uint64_t, 2>(); }
RS_ENTRY(cmp_i8_3) { cmpT<int8_t, 3>(); }
RS_ENTRY(cmp_i32_3) { cmpT<int32_t, 3>(); }
RS_ENTRY(cmp_u64_3) { cmpT<uint64_t, 3>(); }
RS_ENTRY(cmp_i64_3) { cmpT<int64_t, 3>(); }
RS_ENTRY(cmp_i16_4) { cmpT<int16_t, 4>(); }

template <typename I> static void msbT() {
  I a = rs_any<I>("a"), b = rs_any<I>("b");
  bool r = msb<I>(a, b);
  // floor(log2(a)) < floor(log2(b)), with log2(0) = -inf
  bool e = false;
  for (int k = 0; k < (int)sizeof(I) * 8; k++) {
    bool x = (a >> k) & 1, y = (b >> k) & 1;
    e = rs_ite(x, 0, rs_ite(y, 1, e)) != 0;
  }
  rs_observe("msb", r);
  rs_check(r == e, "msb(a,b) is floor(log2 a) < floor(log2 b)");
}
RS_ENTRY(msb_u8) { msbT<uint8_t>(); }
RS_ENTRY(msb_u16) { msbT<uint16_t>(); }
RS_ENTRY(msb_u32) { msbT<uint32_t>(); }
RS_ENTRY(msb_u64) { msbT<uint64_t>(); }

// ---- C06
template <typename I> static void intervalT() {
  const int w = sizeof(I) * 8;
  I a = rs_any<I>("a"), b = rs_any<I>("b"), low, mid, upp;
  int level = intervalPow2Int<I>(a, b, low, mid, upp);
  UT<I> ka = key(a), kb = key(b), kl = key(low), km = key(mid), ku = key(upp);
  rs_observe("low", kl); rs_observe("mid", km); rs_observe("upp", ku); rs_observe("level", (uint64_t)level);
  UT<I> x = ka ^ kb;
  uint64_t hi = rs_ite(level >= 64, 0, (uint64_t)x >> (level & 63));
  uint64_t top = rs_ite(level > 0, ((uint64_t)x >> ((level - 1) & 63)) & 1, x == 0);
  rs_check((level >= 0) & (level <= w) & (hi == 0) & (top == 1), "level is the height of the smallest dyadic cell with both values");
  UT<I> mask = (UT<I>)rs_ite(level >= 64, ~0ull, ((uint64_t)1 << (level & 63)) - 1);
  rs_check(kl == (UT<I>)(ka & (UT<I>)~mask), "low is the lower end of the cell");
  rs_check(ku == (UT<I>)(ka | mask), "upp is the upper end of the cell");
  UT<I> half = (UT<I>)rs_ite(level > 0, (uint64_t)1 << ((level - 1) & 63), 0);
  rs_check(km == (UT<I>)(kl + half), "mid is the first value of the upper half");
}
RS_ENTRY(interval_i8) { intervalT<int8_t>(); }
RS_ENTRY(interval_u8) { intervalT<uint8_t>(); }
RS_ENTRY(interval_i16) { intervalT<int16_t>(); }
RS_ENTRY(interval_u16) { intervalT<uint16_t>(); }
RS_ENTRY(interval_i32) { intervalT<int32_t>(); }
RS_ENTRY(interval_u32) { intervalT<uint32_t>(); }
RS_ENTRY(interval_i64) { intervalT<int64_t>(); }
RS_ENTRY(interval_u64) { intervalT<uint64_t>(); }

template <typename I, int D> static void splitT() {
  I a[D], b[D], p[D], low[D], mid[D], upp[D];
  for (int d = 0; d < D; d++) { a[d] = rs_any<I>("a"); b[d] = rs_any<I>("b"); p[d] = rs_any<I>("p"); }
  MortonTraits<I, D>::split(a, b, low, mid, upp);
  bool in = true, eq = true, inp = true;
  for (int d = 0; d < D; d++) {
    rs_observe("low", key(low[d])); rs_observe("mid", key(mid[d])); rs_observe("upp", key(upp[d]));
    in = in & (low[d] <= a[d]) & (a[d] <= upp[d]) & (low[d] <= b[d]) & (b[d] <= upp[d]) & (low[d] <= mid[d]) & (mid[d] <= upp[d]);
    eq = eq & (a[d] == b[d]);
    inp = inp & (low[d] <= p[d]) & (p[d] <= upp[d]);
  }
  rs_check(in, "the split box contains both points and the split point");
  bool la = zless<I, D>(a, mid), lb = zless<I, D>(b, mid);
  rs_check(eq | (la != lb), "the split point separates two different points in Morton order");
  // points of the box: before mid exactly when below mid in one fixed dimension
  bool lp = zless<I, D>(p, mid);
  bool sep = false;
  for (int d = 0; d < D; d++) sep = sep | ((p[d] < mid[d]) & (mid[d] != low[d]));
  rs_check(!inp | (lp == sep), "the split halves the box along one dimension");
}
RS_ENTRY(split_i8_2) { splitT<int8_t, 2>(); }
RS_ENTRY(split_u8_2) { splitT<uint8_t, 2>(); }
RS_ENTRY(split_i16_2) { splitT<int16_t, 2>(); }
RS_ENTRY(split_i32_2) { splitT<int32_t, 2>(); }
RS_ENTRY(split_u32_2) { splitT<uint32_t, 2>(); }
RS_ENTRY(split_u64_2) { splitT<uint64_t, 2>(); }
RS_ENTRY(split_i64_2) { splitT<int64_t, 2>(); }
RS_ENTRY(split_i8_3) { splitT<int8_t, 3>(); }
RS_ENTRY(split_u16_3) { splitT<uint16_t, 3>(); }
RS_ENTRY(split_i32_3) { splitT<int32_t, 3>(); }

// ---- C05: floating point Morton order
template <typename F> struct FB;
template <> struct FB<float> { typedef uint32_t U; static const int M = 23, E = 8, B = 127; };
template <> struct FB<double> { typedef uint64_t U; static const int M = 52, E = 11, B = 1023; };
// any finite value; dom 0: zero (either sign) or normal, dom 1: every finite value
template <typename F> static F fin(const char* n, bool sub) {
  typedef typename FB<F>::U U;
  F f = rs_any<F>(n);
  U b = rs_bits(f);
  U e = (b >> FB<F>::M) & (((U)1 << FB<F>::E) - 1);
  rs_assume(e < (((U)1 << FB<F>::E) - 1));
  if (!sub) rs_assume((e != 0) | ((U)(b << 1) == 0));
  return f;
}
// Position of the most significant different bit of the (infinite two's complement) binary expansions
// of x and y; `none` if equal, EXPONENT_MAX if the signs differ.  Bits of -v are the complement of the
// bits just below v, i.e. of the pattern decremented by one.
template <typename F> static int64_t topDiff(F x, F y, int64_t none) {
  typedef typename FB<F>::U U;
  const int M = FB<F>::M;
  const U mag = ~((U)1 << (sizeof(U) * 8 - 1));
  bool nx = x < 0, ny = y < 0;
  U bx = (rs_bits(x) & mag) - (U)nx, by = (rs_bits(y) & mag) - (U)ny;
  int64_t ex = (int64_t)(bx >> M), ey = (int64_t)(by >> M);
  int64_t emax = (int64_t)rs_ite(ex > ey, (uint64_t)ex, (uint64_t)ey);
  U df = (bx ^ by) & (((U)1 << M) - 1);
  int64_t top = 0;
  for (int k = 0; k < M; k++) top = (int64_t)rs_ite((df >> k) & 1, (uint64_t)k, (uint64_t)top);
  int64_t r = (int64_t)rs_ite(ex != ey, (uint64_t)(emax - FB<F>::B), (uint64_t)(ex - FB<F>::B - M + top));
  r = (int64_t)rs_ite(x == y, (uint64_t)none, (uint64_t)r);
  return (int64_t)rs_ite((nx != ny) , (uint64_t)(FB<F>::B + 1), (uint64_t)r);
}
// lemma for one coordinate, proven first and then used for the whole vector
template <typename F> static void lemma1(const F* a, const F* b) {
  int64_t t = topDiff(*a, *b, -FB<F>::B);
  t = (int64_t)rs_ite(t > -FB<F>::B, (uint64_t)t, (uint64_t)-FB<F>::B);
  int r = MortonTraits<F, 1>::distance(a, b);
  rs_check(r == t, "distance of scalars is the exponent of the most significant different bit");
  rs_assume(r == t);
}
template <typename F, int D> static void cmpF() {
  F a[D], b[D];
  for (int d = 0; d < D; d++) { a[d] = fin<F>("a", false); b[d] = fin<F>("b", false); lemma1(a + d, b + d); }
  bool r = MortonTraits<F, D>::compare(a, b);
  rs_observe("cmp", r);
  const int64_t none = -100000;
  int64_t best = topDiff(a[0], b[0], none);
  bool less = a[0] < b[0];
  for (int d = 1; d < D; d++) {
    int64_t t = topDiff(a[d], b[d], none);
    bool up = t > best;
    less = rs_ite(up, a[d] < b[d], less) != 0;
    best = (int64_t)rs_ite(up, (uint64_t)t, (uint64_t)best);
  }
  rs_check(r == less, "compare is the Z-order of the binary expansions");
}
template <typename F, int D> static void distF() {
  F a[D], b[D];
  for (int d = 0; d < D; d++) { a[d] = fin<F>("a", false); b[d] = fin<F>("b", false); lemma1(a + d, b + d); }
  int r = MortonTraits<F, D>::distance(a, b);
  rs_observe("dist", (uint64_t)(int64_t)r);
  int64_t best = -FB<F>::B;
  for (int d = 0; d < D; d++) {
    int64_t t = topDiff(a[d], b[d], -FB<F>::B);
    best = (int64_t)rs_ite(t > best, (uint64_t)t, (uint64_t)best);
  }
  rs_check(r == best, "distance is the exponent of the most significant different bit");
}
RS_ENTRY(cmp_f_1) { cmpF<float, 1>(); }
RS_ENTRY(cmp_f_2) { cmpF<float, 2>(); }
RS_ENTRY(cmp_f_3) { cmpF<float, 3>(); }
RS_ENTRY(cmp_d_2) { cmpF<double, 2>(); }
RS_ENTRY(cmp_d_3) { cmpF<double, 3>(); }
RS_ENTRY(dist_f_2) { distF<float, 2>(); }
RS_ENTRY(dist_d_2) { distF<double, 2>(); }
// strict order axioms over every finite value (subnormals included)
template <typename F, int D> static void swoT() {
  F a[D], b[D];
  for (int d = 0; d < D; d++) { a[d] = fin<F>("a", true); b[d] = fin<F>("b", true); }
  typedef MortonTraits<F, D> M;
  bool ab = M::compare(a, b), ba = M::compare(b, a), aa = M::compare(a, a);
  rs_observe("ab", ab); rs_observe("ba", ba);
  rs_check(!aa, "irreflexive");
  rs_check(!(ab & ba), "asymmetric");
  bool eq = true;
  for (int d = 0; d < D; d++) eq = eq & (a[d] == b[d]);
  rs_check(eq | ab | ba, "different points are ordered");
}
RS_ENTRY(swo_f_2) { swoT<float, 2>(); }
RS_ENTRY(swo_d_2) { swoT<double, 2>(); }
// interval and split on floating point values
template <typename F> static void intervalF() {
  F a = fin<F>("a", true), b = fin<F>("b", true), low, mid, upp;
  int level = intervalPow2Float<F>(a, b, low, mid, upp);
  rs_observe("low", rs_bits(low)); rs_observe("mid", rs_bits(mid)); rs_observe("upp", rs_bits(upp)); rs_observe("level", (uint64_t)(int64_t)level);
  rs_check((low <= a) & (a <= upp) & (low <= b) & (b <= upp), "the cell contains both values");
  rs_check((low <= mid) & (mid <= upp), "the middle value is inside the cell");
  bool lt = a < b;
  F mn = rs_ite_d(lt, a, b), mx = rs_ite_d(lt, b, a);
  rs_check((mn == mx) | ((mn < mid) & (mid <= mx)) | ((mn <= mid) & (mid < mx)), "the middle value separates different values");
}
RS_ENTRY(interval_f) { intervalF<float>(); }
RS_ENTRY(interval_d) { intervalF<double>(); }
template <typename F, int D> static void splitF() {
  F a[D], b[D], low[D], mid[D], upp[D];
  for (int d = 0; d < D; d++) { a[d] = fin<F>("a", true); b[d] = fin<F>("b", true); }
  MortonTraits<F, D>::split(a, b, low, mid, upp);
  bool in = true, eq = true, sep = false;
  for (int d = 0; d < D; d++) {
    rs_observe("low", rs_bits(low[d])); rs_observe("mid", rs_bits(mid[d])); rs_observe("upp", rs_bits(upp[d]));
    in = in & (low[d] <= a[d]) & (a[d] <= upp[d]) & (low[d] <= b[d]) & (b[d] <= upp[d]) & (low[d] <= mid[d]) & (mid[d] <= upp[d]);
    eq = eq & (a[d] == b[d]);
    bool one = ((a[d] < mid[d]) & (mid[d] <= b[d])) | ((b[d] < mid[d]) & (mid[d] <= a[d])) | ((a[d] <= mid[d]) & (mid[d] < b[d])) | ((b[d] <= mid[d]) & (mid[d] < a[d]));
    for (int e = 0; e < D; e++) if (e != d) one = one & (mid[e] == low[e]);
    sep = sep | one;
  }
  rs_check(in, "the split box contains both points and the split point");
  rs_check(eq | sep, "the split point separates two different points along one dimension");
}
RS_ENTRY(split_f_2) { splitF<float, 2>(); }
RS_ENTRY(split_d_2) { splitF<double, 2>(); }
