// C23, C25: planar primitives, geographic conversions
#include <rofl/geometry/base_geometry2.h>
#include <rofl/geometry/gis.h>
#include "rs.h"
using namespace rofl;
static const double PI = 3.14159265358979323846, PI2 = 2 * PI;
static bool near(double a, double b, double tol) { return (a - b <= tol) & (b - a <= tol); }
// ---- C23
RS_ENTRY(pose) {
  float x = rs_realf("x", -1000, 1000), y = rs_realf("y", -1000, 1000), th = rs_param("at", 0) ? (float)rs_param("at", 0) / 1000 : rs_realf("theta", -100, 100);
  Transform2 t;
  if (rs_choose("form", 2)) poseToIsometry2(x, y, th, t);
  else { Vector3 p; p << x, y, th; poseToIsometry2(p, t); }
  double c = cos((double)th), s = sin((double)th);
  double want[3][3] = {{c, -s, x}, {s, c, y}, {0, 0, 1}};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    rs_observe_d("t", t.matrix()(i, j));
    rs_check(near(t.matrix()(i, j), want[i][j], j == 2 ? 1e-3 : 1e-5), "the transform rotates by theta and translates by (x, y)");
  }
}
RS_ENTRY(norm2pi) {
  double L = (double)rs_param("L", 100), tol = 2e-6 * (L / 6 + 1);
  float a = rs_realf("angle", (float)-L, (float)L), r = normalizeAngle2Pi(a);
  rs_observe_d("r", r);
  rs_check((r >= -tol) & (r <= PI2 + tol), "the angle is in [0, 2 pi)");
  double k = floor(((double)a - r) / PI2 + 0.5), d = (double)a - r - PI2 * k;
  rs_check((d <= tol) & (d >= -tol), "the angle changes by whole turns");
}
RS_ENTRY(interval) {
  // begin b, width w counter-clockwise, angle at d from b; whole turns added
  int k1 = rs_choose("k1", 3) - 1, k2 = rs_choose("k2", 3) - 1, form = (int)rs_param("form", 0);
  double g = 1e-4;
  double b = rs_real("b", -7, 7), w = rs_real("w", 1e-3, PI2 - 1e-3), d = rs_real("d", 1e-3, PI2 - 1e-3);
  rs_assume((d - w >= g) | (w - d >= g));
  float fb = (float)b, fe = (float)(b + w + PI2 * k1), fa = (float)(b + d + PI2 * k2);
  bool in = form == 0 ? insideAngleInterval(fa, fb, fe) : form == 1 ? insideAngleInterval(fa, AngleInterval(fb, fe)) : insideAngleIntervalEq(fa, fb, fe);
  rs_observe("in", in);
  rs_check(in == (d < w), "an angle is inside exactly when met before the end, turning counter-clockwise from the begin");
}
RS_ENTRY(ccw_area) {
  float c[6];
  for (auto& v : c) v = rs_realf("c", -100, 100);
  double r = ccw(Vector2(c[0], c[1]), Vector2(c[2], c[3]), Vector2(c[4], c[5]));
  double want = (double)c[0] * c[3] - (double)c[1] * c[2] + (double)c[2] * c[5] - (double)c[3] * c[4] + (double)c[4] * c[1] - (double)c[5] * c[0];
  rs_observe_d("r", r);
  rs_check(near(r, want, 0.1), "twice the signed area of the triangle, positive for counter-clockwise points");
}
// ---- C25
// an angle in degrees: any value, or one of a few concrete ones
static float deg(const char* name, float lo, float hi) {
  static const float at[] = {37.5f, -62.25f, 11.f, -80.5f, 44.75f, 3.5f};
  static int next = 0;
  int k = (int)rs_param("at", 0);
  if (!k) return rs_realf(name, lo, hi);
  return at[(k + next++) % 6] * (hi > 90 ? 2 : 1);
}
static void cs(double deg, double& c, double& s) { c = cos(deg / 180 * PI); s = sin(deg / 180 * PI); }
RS_ENTRY(ecef) {
  float lat = deg("lat", -90, 90), lon = deg("lon", -180, 180), alt = rs_realf("alt", -1000, 10000), x, y, z;
  convertLatLonAltToECEF(lat, lon, alt, x, y, z);
  double cp, sp, cl, sl, e2 = (float)0.00669437999014, r2 = (float)((float)0.996647189335 * (float)0.996647189335);
  cs(lat, cp, sp); cs(lon, cl, sl);
  double N = 6378137.0 / sqrt(1 - e2 * sp * sp);
  rs_observe_d("x", x); rs_observe_d("y", y); rs_observe_d("z", z);
  rs_check(near(x, (N + alt) * cp * cl, 10), "geocentric x of the WGS84 ellipsoid");
  rs_check(near(y, (N + alt) * cp * sl, 10), "geocentric y of the WGS84 ellipsoid");
  rs_check(near(z, (N * r2 + alt) * sp, 10), "geocentric z of the WGS84 ellipsoid");
}
static double degLat(double lat) { double c, s; cs(lat, c, s); double c2 = 2 * c * c - 1, c4 = 2 * c2 * c2 - 1, c6 = 2 * c4 * c2 - c2; return 111132.09 - 566.05 * c2 + 1.20 * c4 - 0.002 * c6; }
static double degLon(double lat) { double c, s; cs(lat, c, s); double c2 = 2 * c * c - 1, c3 = 2 * c * c2 - c, c5 = 2 * c3 * c2 - c; return 111415.13 * c - 94.55 * c3 + 0.12 * c5; }
RS_ENTRY(scale) {
  float lat = deg("lat", -90, 90);
  if (rs_param("at", 0)) rs_observe_d("lat", lat);
  double a = meterPerDegLat(lat), b = meterPerDegLon(lat);
  rs_observe_d("a", a); rs_observe_d("b", b);
  rs_check(near(a, degLat(lat), 0.05), "length of a degree of latitude");
  rs_check(near(b, degLon(lat), 0.05), "length of a degree of longitude");
}
RS_ENTRY(local) {
  float lo = deg("latOrg", -85, 85), no = rs_realf("lonOrg", -180, 180), dlat = rs_realf("dlat", -1, 1), dlon = rs_realf("dlon", -1, 1), x, y;
  float lat = lo + dlat, lon = no + dlon;
  convertLatLonToLocalXY(lo, no, lat, lon, x, y);
  rs_observe_d("x", x); rs_observe_d("y", y);
  rs_check(near(x, dlon * degLon(lo), 40), "x is the longitude difference times the degree length at the latitude of the origin");
  rs_check(near(y, dlat * degLat(lo), 20), "y is the latitude difference times the degree length");
}
RS_ENTRY(roundtrip) {
  int n = (int)rs_param("n", 17), seg = (int)rs_param("from", 0) + rs_choose("seg", (int)rs_param("segs", n));
  double LN = (double)rs_param("LN", 180), tol = (double)rs_param("tolu", 3000) * 1e-6;
  double h = 85.0 / n, m = -85 + h * (2 * seg + 1);
  float lo = rs_realf("latOrg", (float)(m - h), (float)(m + h)), no = rs_realf("lonOrg", (float)-LN, (float)LN), dlat = rs_realf("dlat", -1, 1), dlon = rs_realf("dlon", -1, 1), x, y, lat2, lon2;
  float lat = lo + dlat, lon = no + dlon;
  convertLatLonToLocalXY(lo, no, lat, lon, x, y);
  convertLocalXYToLatLon(lo, no, x, y, lat2, lon2);
  rs_observe_d("lat2", lat2); rs_observe_d("lon2", lon2);
  rs_check(near(lat2, lat, tol), "latitude is recovered");
  rs_check(near(lon2, lon, tol), "longitude is recovered");
}
