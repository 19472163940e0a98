// C24: nearest point of a box
#include <rofl/geometry/box_registration.h>
#include "rs.h"
using namespace rofl;
// |a| <= h, |a| >= h without branching
static bool le(double a, double h) { return (a <= h) & (-a <= h); }
static bool ge(double a, double h) { return (a >= h) | (-a >= h); }
template <typename S, int D> static void assoc(S (*in)(const char*, S, S), double tol) {
  typedef BoxRegistration<S, D> B;
  B* box = new B;
  typename B::Point dim, q, n;
  for (int d = 0; d < D; d++) { dim(d) = in("dim", (S)0.01, 100); q(d) = in("q", -200, 200); n(d) = (S)(1000 + d); }
  box->setDimension(dim);
  double gap = 1e-9 + 10 * tol;
  // queries within rounding of a face plane have two acceptable answers only if they differ by rounding: nothing is excluded
  box->associate(q, n);
  bool within = true, face = false, outside = false, clamped = true, inside = true, moved = false;
  for (int d = 0; d < D; d++) {
    rs_observe_d("n", n(d));
    double h = 0.5 * dim(d), x = q(d), y = n(d);
    within &= le(y, h + tol);
    face |= ge(y, h - tol);
    outside |= ge(x, h + gap);
    clamped &= (le(y - x, tol) & le(x, h + tol)) | (le(y + h, tol) & (x <= -h + tol)) | (le(y - h, tol) & (x >= h - tol));
    inside &= le(x, h - gap);
    bool ok = ge(y, h - tol) & le(y, h + tol);
    for (int e = 0; e < D; e++) {
      ok &= le(y - x, 0.5 * dim(e) - q(e) + tol) & le(y - x, 0.5 * dim(e) + q(e) + tol);
      if (e != d) ok &= le(n(e) - q(e), tol);
    }
    moved |= ok;
  }
  rs_check(within, "the nearest point belongs to the box");
  rs_check(face, "the nearest point is on the boundary of the box");
  rs_check(!outside | clamped, "outside the box each coordinate is clamped to the box");
  rs_check(!inside | moved, "inside the box the point moves to the closest face");
  delete box;
}
static double rd(const char* n, double a, double b) { return rs_real(n, a, b); }
static float rf(const char* n, float a, float b) { return rs_realf(n, a, b); }
RS_ENTRY(assoc_d2) { assoc<double, 2>(rd, 1e-9); }
RS_ENTRY(assoc_d3) { assoc<double, 3>(rd, 1e-9); }
RS_ENTRY(assoc_f2) { assoc<float, 2>(rf, 1e-4); }
RS_ENTRY(assoc_f3) { assoc<float, 3>(rf, 1e-4); }
