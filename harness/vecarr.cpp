// C31: VectorArray
#include <cstddef>
#include <rofl/common/vector_array.h>
#include "rs.h"
using namespace rofl;
template <typename T, size_t D> static void vec() {
  typedef VectorArray<T, D> V;
  V a, b;
  T x[D], y[D], s = (T)rs_any<T>("s");
  for (size_t d = 0; d < D; d++) { x[d] = rs_any<T>("x"); y[d] = rs_any<T>("y"); a[d] = x[d]; b(d) = y[d]; }
  int op = (int)rs_param("op", 0);
  V c;
  for (size_t d = 0; d < D; d++) rs_check(c[d] == T(0), "default vector is zero");
  V a0(a);
  auto same = [&](const V& v, T* w) { bool ok = true; for (size_t d = 0; d < D; d++) ok &= (v[d] == w[d]) & (v(d) == w[d]); rs_check(ok, "operands are unchanged"); };
  same(a0, x);
  T w[D];
  for (size_t d = 0; d < D; d++) switch (op) {
    case 0: case 5: w[d] = (T)(x[d] + y[d]); break;
    case 1: w[d] = (T)(x[d] - y[d]); break;
    case 2: case 6: w[d] = (T)(x[d] * s); break;
    case 3: case 7: w[d] = (T)(x[d] * y[d]); break;
    case 4: rs_assume(y[d] != T(0)); if (std::is_signed<T>::value) rs_assume(y[d] != T(-1)); w[d] = (T)(x[d] / y[d]); break;
    case 8: w[d] = (T)(x[d] + x[d]); break;
    case 9: w[d] = (T)(x[d] * x[d]); break;
  }
  switch (op) {
    case 0: c = a + b; break;
    case 1: c = a - b; break;
    case 2: c = a * s; break;
    case 3: c = a * b; break;
    case 4: c = a / b; break;
    case 5: { V& r = (a += b); rs_check(&r == &a, "returns the vector itself"); c = a; break; }
    case 6: { V& r = (a *= s); rs_check(&r == &a, "returns the vector itself"); c = a; break; }
    case 7: { V& r = (a *= b); rs_check(&r == &a, "returns the vector itself"); c = a; break; }
    case 8: a += a; c = a; break;
    case 9: a *= a; c = a; break;
  }
  if (op < 5) same(a, x);
  same(b, y);
  for (size_t d = 0; d < D; d++) { rs_observe("c", (uint64_t)(int64_t)c[d]); rs_check(c[d] == w[d], "component-wise result"); }
}
#include <type_traits>
RS_ENTRY(vec_u32_3) { vec<uint32_t, 3>(); }
RS_ENTRY(vec_i16_2) { vec<int16_t, 2>(); }
RS_ENTRY(vec_u8_4) { vec<uint8_t, 4>(); }
// real components
static bool near(double a, double b, double tol) { return (a - b <= tol) & (b - a <= tol); }
RS_ENTRY(vec_real) {
  typedef VectorArray<double, 3> V;
  V a, b; double s = rs_real("s", -100, 100);
  for (int d = 0; d < 3; d++) { a[d] = rs_real("x", -100, 100); b[d] = rs_real("y", -100, 100); }
  int op = (int)rs_param("op", 0);
  V c;
  if (op == 4) for (int d = 0; d < 3; d++) rs_assume((b[d] >= 0.01) | (b[d] <= -0.01));
  switch (op) { case 0: c = a + b; break; case 1: c = a - b; break; case 2: c = a * s; break; case 3: c = a * b; break; case 4: c = a / b; break; case 5: c = a; c += b; break; case 6: c = a; c *= s; break; case 7: c = a; c *= b; break; }
  for (int d = 0; d < 3; d++) {
    rs_observe_d("c", c[d]);
    double p = op == 2 || op == 6 ? s : b[d];
    bool ok = op == 0 || op == 5 ? near(c[d], a[d] + b[d], 1e-9) : op == 1 ? near(c[d], a[d] - b[d], 1e-9) : op == 4 ? near(c[d] * b[d], a[d], 1e-9) : near(c[d], a[d] * p, 1e-9);
    rs_check(ok, "component-wise result");
  }
}
