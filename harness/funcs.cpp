// C18-C21: common/functions
#include <rofl/common/functions.h>
#include "rs.h"
using namespace rofl;
static const double PI = 3.14159265358979323846, PI2 = 2 * PI;
static double absd(double x) { return x < 0 ? -x : x; }
static bool near(double a, double b, double tol) { return (a - b <= tol) & (b - a <= tol); }

// ---- C18
// distance of x from the closest integer multiple of p
static bool multiple(double x, double p, double tol) {
  double k = floor(x / p + 0.5), d = x - p * k;
  return (d <= tol) & (d >= -tol);
}
RS_ENTRY(norm360) {
  // far = 0: one range around zero; otherwise a few turns around a far multiple of the period
  double far = (double)rs_param("far", 0), L = far ? 7 : 1000, a = PI2 * far + rs_real("angle", -L, L), r = normalize360(a), tol = 1e-9 + 1e-12 * absd(far);
  rs_observe_d("r", r);
  rs_check((r >= -tol) & (r <= PI2 + tol), "normalize360 is in [0, 2 pi)");
  rs_check(multiple(a - r, PI2, tol), "normalize360 changes the angle by whole turns");
}
RS_ENTRY(norm180) {
  // far = 0: one range around zero; otherwise a few turns around a far multiple of the period
  double far = (double)rs_param("far", 0), L = far ? 7 : 1000, a = PI * far + rs_real("angle", -L, L), r = normalize180(a), tol = 1e-9 + 1e-12 * absd(far);
  rs_observe_d("r", r);
  rs_check((r >= -tol) & (r <= PI + tol), "normalize180 is in [0, pi)");
  rs_check(multiple(a - r, PI, tol), "normalize180 changes the angle by whole half turns");
}

// ---- C19
template <typename T, typename F> static void cossin(F f, double tol) {
  // angle = 2 pi period + 2 pi (seg + [0, 1]) / n
  int n = (int)rs_param("n", 32), seg = rs_choose("seg", n);
  double period = (double)rs_param("period", 0);
  double h = PI / n, m = PI2 * period + PI2 * (seg + 0.5) / n, cm = cos(m), sm = sin(m);
  // the local coordinate d is the symbolic input
  double d = rs_realf("d", (float)(-h * 1.0001), (float)(h * 1.0001));
  double x0 = (double)(T)m;
  T c, s;
  double e0 = m - x0;  // the argument is x0 + d, i.e. m + (d - e0)
  f((T)(x0 + d), c, s);
  double u = d - e0, oc = cm - sm * u - cm * u * u / 2 + sm * u * u * u / 6, os = sm + cm * u - sm * u * u / 2 - cm * u * u * u / 6;
  rs_observe_d("c", c); rs_observe_d("s", s);
  rs_check(near(c, oc, tol), "fast cosine agrees with the cosine");
  rs_check(near(s, os, tol), "fast sine agrees with the sine");
}
RS_ENTRY(cossin_d) { cossin<double>([](double x, double& c, double& s) { fastCosSin(x, c, s); }, 0.0013); }
RS_ENTRY(cossin_f) { cossin<float>([](float x, float& c, float& s) { fastCosSinf(x, c, s); }, 0.0013 + 2e-7 * 6.3 * absd((double)rs_param("period", 0))); }
// atan(m + u), |u| <= h
static double atanTaylor(double m, double u) {
  double q = 1 / (1 + m * m);
  return atan(m) + u * (q + u * (-m * q * q + u * ((3 * m * m - 1) * q * q * q / 3)));
}
template <typename T, typename F> static void atn(F f) {
  int n = (int)rs_param("n", 32), seg = rs_choose("seg", n);
  double h = 1.0 / n, m = (float)(-1 + 2 * (seg + 0.5) / n), d = rs_realf("d", (float)-h, (float)h);
  T r = f((T)(m + d));
  rs_observe_d("r", r);
  rs_check(near(r, atanTaylor(m, d), 2e-5), "fast arctangent agrees with the arctangent");
}
RS_ENTRY(atan_d) { atn<double>([](double x) { return fastAtan(x); }); }
RS_ENTRY(atan_f) { atn<float>([](float x) { return fastAtanf(x); }); }
template <typename T, typename F> static void atn2(F f) {
  int n = 16, seg = rs_choose("seg", n), oct = rs_choose("octant", 8), mg = (int)rs_param("mag", 0);
  double R = mg == 0 ? 1 : mg == 1 ? 1024 : mg == 2 ? 0.0009765625 : mg == 3 ? 3 : 1e-30;
  double h = 0.5 / n, m = (float)((seg + 0.5) / n), d = rs_realf("d", (float)-h, (float)h);
  double big = R, small = R * (m + d);
  bool steep = oct & 1, xneg = oct & 2, yneg = oct & 4;
  double x = steep ? small : big, y = steep ? big : small;
  T r = f((T)(xneg ? -x : x), (T)(yneg ? -y : y));
  double a = atanTaylor(m, d);
  if (steep) a = PI / 2 - a;
  if (xneg) a = PI - a;
  if (yneg) a = -a;
  rs_observe_d("r", r);
  double df = r - a;
  // a zero ordinate has either sign: both ends of the interval are the same direction
  if (!steep && seg == 0 && xneg) rs_check(((df <= 2.5e-5) & (df >= -2.5e-5)) | ((m + d <= 1e-6) & ((absd(df - PI2) <= 5e-5) | (absd(df + PI2) <= 5e-5))), "fast two-argument arctangent gives the angle of the point");
  else rs_check((df <= 2.5e-5) & (df >= -2.5e-5), "fast two-argument arctangent gives the angle of the point");
}
RS_ENTRY(atan2_d) { atn2<double>([](double x, double y) { return fastAtan2(x, y); }); }
RS_ENTRY(atan2_f) { atn2<float>([](float x, float y) { return fastAtan2f(x, y); }); }

// ---- C20
RS_ENTRY(fourier) {
  int n = (int)rs_param("n", 2);
  double th = rs_param("at", 0) ? (double)rs_param("at", 0) / 1000 : rs_real("theta", -100, 100);  // at: one concrete angle
  std::vector<double> co(2 * n + 2);
  for (auto& c : co) c = rs_real("coeff", -10, 10);
  double v = evaluateFourier(co, th), c = cos(th), s = sin(th), want = co[0], ck = 1, sk = 0;
  for (int k = 1; k <= n; k++) {
    double t = ck * c - sk * s;
    sk = ck * s + sk * c;
    ck = t;
    want += co[2 * k] * ck + co[2 * k + 1] * sk;
  }
  rs_observe_d("v", v);
  rs_check(near(v, want, 1e-9), "the Fourier series is the sum of its harmonics");
}
// reference values 2 exp(-x) I_k(x) from the power series (x <= 60 here)
static double pnebiRef(int k, double x) {
  if (k < 0) k = -k;
  double t = 2 * exp(-x), s = 0;
  for (int i = 1; i <= k; i++) t = t * x / 2 / i;
  for (int i = 0; i < 400; i++) { s += t; t = t * (x / 2) * (x / 2) / ((i + 1.0) * (i + 1.0 + k)); }
  return s;
}
// j-th derivative, P_k' = (P_{k-1} + P_{k+1}) / 2 - P_k
static double pnebiDer(int j, int k, double m) { return j == 0 ? pnebiRef(k, m) : (pnebiDer(j - 1, k - 1, m) + pnebiDer(j - 1, k + 1, m)) / 2 - pnebiDer(j - 1, k, m); }
static double pnebiTaylor(int k, double m, double d, int deg) {
  double r = 0, f = 1, c[8];
  for (int j = 0; j <= deg; j++) { if (j) f *= j; c[j] = pnebiDer(j, k, m) / f; }
  for (int j = deg; j >= 0; j--) r = r * d + c[j];
  return r;
}
RS_ENTRY(pnebi0) {
  // x = m + d, |d| <= h
  double h = 1.0 / (double)rs_param("ih", 64), m = (double)rs_param("from", 1) + 2 * h * (rs_choose("seg", (int)rs_param("segs", 1)) + 0.5), x = rs_real("x", m - h, m + h), d = x - m;
  bool neg = rs_choose("neg", 2);
  double r = evaluatePnebi0Polynom(neg ? -x : x);
  rs_observe_d("r", r);
  rs_check(near(r, pnebiTaylor(0, m, d, 3), 2e-6), "PNEBI of order 0 is 2 exp(-|x|) I0(|x|)");
}
RS_ENTRY(pnebiv) {
  int n = (int)rs_param("n", 1);
  double h = 1.0 / (double)rs_param("ih", 64), m = (double)rs_param("from", 1) + 2 * h * (rs_choose("seg", (int)rs_param("segs", 1)) + 0.5), x = rs_real("x", m - h, m + h), d = x - m;
  bool neg = rs_choose("neg", 2);
  std::vector<double> p(rs_choose("resize", 2) ? 0 : n + 1);
  evaluatePnebiVector(n, neg ? -x : x, p);
  rs_check((int)p.size() == n + 1, "one value per order 0..n");
  for (int k = 0; k <= n; k++) {
    rs_observe_d("p", p[k]);
    rs_check(near(p[k], pnebiTaylor(k, m, d, 3), 5e-6), "PNEBI of order k is 2 exp(-|x|) I_k(|x|)");
  }
}
RS_ENTRY(lut) {
  int n = (int)rs_param("n", 1), mode = (int)rs_param("mode", 0);
  double tol = 1.0 / (double)rs_param("itol", 5), lo = (double)rs_param("lo8", 0) / 8, hi = lo + (double)rs_param("w8", 2) / 8;
  double m = (lo + hi) / 2, h = (hi - lo) / 2, x = rs_real("x", m - h, m + h), d = x - m;
  PnebiLUT lut(n, tol);
  rs_check(lut.getOrderMax() == n, "order of the table");
  if (rs_choose("neg", 2)) x = -x;
  if (mode == 0) {
    int k = rs_choose("k", n + 1);
    double r = lut.eval(k, x);
    rs_observe_d("r", r);
    rs_check(near(r, pnebiTaylor(k, m, d, 4), tol), "the table approximates PNEBI within the tolerance");
  } else {
    std::vector<double> y(rs_choose("resize", 2) ? 0 : n + 1);
    lut.eval(x, y);
    rs_check((int)y.size() == n + 1, "one value per order 0..n");
    for (int k = 0; k <= n; k++) { rs_observe_d("y", y[k]); rs_check(near(y[k], pnebiTaylor(k, m, d, 4), tol), "the table approximates PNEBI within the tolerance"); }
  }
}

// order 0 never increases, higher orders never exceed it, and the two evaluation functions agree
RS_ENTRY(lut_shape) {
  int n = (int)rs_param("n", 2);
  double tol = 1.0 / (double)rs_param("itol", 5), L = (double)rs_param("max", 100), a = rs_real("a", 0, L), b = rs_real("b", 0, L);
  rs_assume(a <= b);
  PnebiLUT lut(n, tol);
  double fa = lut.eval(0, a), fb = lut.eval(0, b);
  rs_check(fb <= fa + 1e-9, "PNEBI of order 0 decreases");
  std::vector<double> y;
  lut.eval(a, y);
  rs_check(near(y[0], fa, 1e-9), "both evaluations give the same value");
  int k = n ? 1 + rs_choose("k", n) : 0;
  double g = lut.eval(k, a);
  rs_check(near(y[k], g, 1e-9), "both evaluations give the same value");
  rs_check((g >= -1e-9) & (g <= fa + 1e-9), "higher orders are between 0 and order 0");
}

// ---- C21
// angles are cell * ka + ra: multiples of the cell are avoided by 1e-6, where rounding decides the branches
static double angleIn(const char* n, double cell, int k, double gap) { return cell * k + rs_real(n, gap, cell - gap); }
static int pick(int lo, int hi) { return lo + rs_choose("cell", hi - lo + 1); }
RS_ENTRY(lucos) {
  int K = (int)rs_param("K", 3), M = (int)rs_param("span", 3), ka = pick(-K, K), kb = ka + rs_choose("kb", M + 1), kt = pick(ka, kb);
  double a = angleIn("a", PI, ka, 1e-6), b = angleIn("b", PI, kb, 1e-6), t = angleIn("t", PI, kt, 0), lo, hi;
  rs_assume((a <= t) & (t <= b) & (b - a >= 1e-6) & (absd(b - a - PI2) >= 1e-6));
  if (rs_choose("swap", 2)) findLUCos(b, a, lo, hi);
  else findLUCos(a, b, lo, hi);
  double c = cos(t);
  rs_observe_d("lo", lo); rs_observe_d("hi", hi);
  rs_check(c >= lo - 1e-9, "the lower bound holds on the whole interval");
  rs_check(c <= hi + 1e-9, "the upper bound holds on the whole interval");
  // attained: value at an end point, or an extremum inside (multiple of pi between a and b)
  double ca = cos(a), cb = cos(b), e = 1e-9;
  bool even = false, odd = false;
  for (int k = ka + 1; k <= kb; k++) { if (k & 1) odd = true; else even = true; }
  rs_check((hi <= 1 + e) & (lo >= -1 - e) & (even | (hi <= ca + e) | (hi <= cb + e)), "the upper bound is attained in the interval");
  rs_check(odd | (lo >= ca - e) | (lo >= cb - e), "the lower bound is attained in the interval");
}
RS_ENTRY(lufourier) {
  // two harmonics need phases that are multiples of pi, so that one grid of cells serves both
  static const double cf[5][6] = {{1, 0, 2, 0, 0, 0}, {-0.5, 3, 0.6, 0.8, 0, 0}, {0.25, 0, -1, 0, 0.3, 0}, {0.25, 0, 1.5, 0, -0.5, 0}, {2, 0, -0.3, -0.9, 0, 0}};
  int which = (int)rs_param("which", 0), n = which == 2 || which == 3 ? 2 : 1;
  std::vector<double> co(cf[which], cf[which] + 2 * n + 2);
  double ph = n == 1 ? atan2(co[3], co[2]) : 0, cell = n == 1 ? PI : PI / 2;
  int K = (int)rs_param("K", 1), M = (int)rs_param("span", 3), ka = pick(-K, K), kb = ka + rs_choose("kb", M + 1), kt = pick(ka, kb);
  double ua = angleIn("a", cell, ka, 1e-6), ub = angleIn("b", cell, kb, 1e-6), ut = angleIn("t", cell, kt, 0), lo, hi, v = co[0];
  rs_assume((ua <= ut) & (ut <= ub) & (ub - ua >= 1e-6) & (absd(ub - ua - PI) >= 1e-6) & (absd(ub - ua - PI2) >= 1e-6));
  if (rs_choose("swap", 2)) findLUFourier(co, (ub + ph) / 2, (ua + ph) / 2, lo, hi);
  else findLUFourier(co, (ua + ph) / 2, (ub + ph) / 2, lo, hi);
  for (int k = 1; k <= n; k++) v += sqrt(co[2 * k] * co[2 * k] + co[2 * k + 1] * co[2 * k + 1]) * cos(n == 1 ? ut : k * ut - atan2(co[2 * k + 1], co[2 * k]));
  rs_observe_d("lo", lo); rs_observe_d("hi", hi);
  rs_check(v >= lo - 1e-8, "the series does not go below the lower bound");
  rs_check(v <= hi + 1e-8, "the series does not go above the upper bound");
}
