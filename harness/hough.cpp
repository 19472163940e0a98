// C26, C27: Hough transform and spectrum of planes and lines
#include <cmath>
#include <vector>
#include <rofl/geometry/hough_line_detector.h>
#include <rofl/geometry/hough_plane_detector.h>
#include "rs.h"
#ifdef RSYM_SYMBOLIC
template class std::__cxx11::basic_string<char>;
// the readings of the clock do not matter here
#include <chrono>
static long rs_now = 0;
namespace std { namespace chrono {
steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(steady_clock::duration(rs_now += 1000000)); }
system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(system_clock::duration(rs_now += 1000000)); }
} }
#endif
using namespace rofl;
static bool near(double a, double b, double tol) { return (a - b <= tol) & (b - a <= tol); }
// the bin of a distance rho: q = (rho - min) / res in bins; unspecified within g of the limits and below the first bin
static void votes(const std::vector<double>& q, const std::vector<int>& ht) {
  int R = (int)ht.size();
  for (int b = 0; b < R; b++) {
    int lo = 0, hi = 0;
    for (double x : q) {
      bool in = (x >= b) & (x < b + 1);
      lo += in ? 1 : 0;
      bool maybe = in || (b == 0 && ((x > -1) & (x < 0)));
      hi += maybe ? 1 : 0;
    }
    rs_check((ht[b] >= lo) & (ht[b] <= hi), "each bin counts the points whose distance falls in it");
  }
}
static bool clear(double x, int R, double g) {
  bool ok = true;
  for (int b = -1; b <= R; b++) ok &= (x - b >= g) | (b - x >= g);
  return ok;
}
// peaks of a sequence: strictly greater than all others within w
static std::vector<int> peaks(const std::vector<int>& h, int w) {
  std::vector<int> r;
  for (int i = 0; i < (int)h.size(); i++) {
    bool ok = true;
    for (int j = std::max(0, i - w); j <= i + w && j < (int)h.size(); j++) if (j != i && h[j] >= h[i]) ok = false;
    if (ok) r.push_back(i);
  }
  return r;
}
template <int N, typename A, typename B> static bool same(const A& a, const B& b) { bool r = true; for (int i = 0; i < N; i++) r &= near(a(i), b(i), 1e-5); return r; }
// ---- C26
static void cfg3(int& T, int& P, int& R, Vector3& mn, Vector3& rs) {
  T = (int)rs_param("T", 2); P = (int)rs_param("P", 2); R = (int)rs_param("R", 3);
  mn << (float)rs_param("t0", 0) / 8, (float)rs_param("p0", 0) / 8, (float)rs_param("r0", -8) / 8;
  rs << (float)rs_param("tr", 6) / 8, (float)rs_param("pr", 9) / 8, (float)rs_param("rr", 6) / 8;
}
RS_ENTRY(plane_geom) {
  int T, P, R;
  Vector3 mn, rs;
  cfg3(T, P, R, mn, rs);
  mn(2) = rs_realf("rhoMin", -10, 10); rs(2) = rs_realf("rhoRes", 0.01f, 10);
  HoughPlaneDetector d;
  if (rs_param("dflt", 0)) {
    d.init(T, P, R, rs(2));
    rs_check(near(d.getPhiRes() * P, 2 * M_PI, 1e-4) & near(d.getPhiMin(), 0, 1e-6) & near(d.getRhoRes(), rs(2), 1e-6), "the default longitudes cover the whole turn");
    mn << d.getThetaMin(), d.getPhiMin(), d.getRhoMin(); rs << d.getThetaRes(), d.getPhiRes(), d.getRhoRes();
  } else d.init({T, P, R}, mn, rs);
  rs_check(d.getThetaNum() == T && d.getPhiNum() == P && d.getRhoNum() == R, "numbers of bins");
  rs_check(near(d.getThetaMin(), mn(0), 1e-6) & near(d.getPhiMin(), mn(1), 1e-6) & near(d.getRhoMin(), mn(2), 1e-4) & near(d.getThetaRes(), rs(0), 1e-6) & near(d.getPhiRes(), rs(1), 1e-6) & near(d.getRhoRes(), rs(2), 1e-5), "ranges");
  for (int t = 0; t < T; t++) for (int p = 0; p < P; p++) {
    double th = (double)mn(0) + (double)rs(0) * t, ph = (double)mn(1) + (double)rs(1) * p, n[3] = {cos(th) * cos(ph), cos(th) * sin(ph), sin(th)};
    const Vector3 &a = d.getNormal(t, p), &b = d.getNormal({t, p});
    rs_check(d.getHoughSpectrum(t, p) == 0 && d.getHoughSpectrum({t, p}) == 0, "no vote yet");
    for (int r = 0; r < R; r++) {
      HoughPlaneDetector::PlaneParam u = d.getPlaneParam(t, p, r), v = d.getPlaneParam({t, p, r});
      double rho = (double)mn(2) + (double)rs(2) * r;
      for (int k = 0; k < 3; k++) rs_check(near(a(k), n[k], 1e-5) & near(b(k), n[k], 1e-5) & near(u(k), n[k], 1e-5) & near(v(k), n[k], 1e-5), "the normal of the cell");
      rs_observe_d("u3", u(3));
      rs_check(near(u(3), -rho, 1e-4) & near(v(3), -rho, 1e-4), "the constant term is minus the distance of the cell");
      rs_check(d.getHoughTransform(t, p, r) == 0 && d.getHoughTransform({t, p, r}) == 0, "no vote yet");
    }
  }
}
RS_ENTRY(plane_votes) {
  int T, P, R, n = (int)rs_param("n", 1), form = (int)rs_param("form", 0);
  Vector3 mn, rs;
  cfg3(T, P, R, mn, rs);
  HoughPlaneDetector d;
  d.init({T, P, R}, mn, rs);
  VectorVector3 pts;
  std::vector<std::vector<double>> q(T * P);
  double g = 1e-3, L = (double)rs_param("L", 3);
  if (form == 1) { VectorVector3 old(2, Vector3(0.1f, 0.2f, 0.3f)); d.insert(old); d.setZero(); }
  for (int i = 0; i < n; i++) {
    float x = rs_realf("x", -L, L), y = rs_realf("y", -L, L), z = rs_realf("z", -L, L);
    pts.push_back(Vector3(x, y, z));
    for (int t = 0; t < T; t++) for (int p = 0; p < P; p++) {
      double th = (double)mn(0) + (double)rs(0) * t, ph = (double)mn(1) + (double)rs(1) * p, v = (cos(th) * cos(ph) * x + cos(th) * sin(ph) * y + sin(th) * z - mn(2)) / rs(2);
      rs_assume(clear(v, R, g));
      q[t * P + p].push_back(v);
    }
  }
  if (form == 2) { auto id = [](const Vector3& v) -> Vector3 { return v; }; d.insert(pts.begin(), pts.end(), id); } else d.insert(pts);
  std::vector<std::vector<int>> ht(T * P);
  std::vector<int> hs(T * P);
  for (int c = 0; c < T * P; c++) {
    int s = 0;
    for (int r = 0; r < R; r++) { int h = (int)d.getHoughTransform(c / P, c % P, r); ht[c].push_back(h); s += h * h; rs_observe("ht", h); }
    votes(q[c], ht[c]);
    hs[c] = (int)d.getHoughSpectrum(c / P, c % P);
    rs_check(hs[c] == s, "the spectrum is the sum of the squared counters");
  }
  // maxima
  int wt = (int)rs_param("wt", 1), wp = (int)rs_param("wp", 1), wr = (int)rs_param("wr", 1);
  if (form == 2) d.setPeakWindow((wt - 0.5f) * rs(0), (wp - 0.5f) * rs(1), (wr - 0.25f) * rs(2)); else d.setPeakWindow(wt, wp, wr);
  std::vector<std::pair<int, int>> top;
  for (int t = 0; t < T; t++) for (int p = 0; p < P; p++) {
    bool ok = true;
    for (int a = 0; a < T; a++) for (int b = 0; b < P; b++) if ((a != t || b != p) && std::abs(a - t) <= wt && std::abs(b - p) <= wp && hs[a * P + b] >= hs[t * P + p]) ok = false;
    if (ok) top.push_back(std::make_pair(t, p));
  }
  std::vector<HoughPlaneDetector::Indices2> m;
  d.findSpectrumMax(m);
  rs_check(m.size() == top.size(), "as many directions as peaks of the spectrum");
  VectorVector3 normals(1);
  d.findNormalMax(normals);
  rs_check(normals.size() == m.size(), "one normal per direction");
  for (size_t i = 0; i < m.size(); i++) {
    bool found = false;
    for (auto& p : top) found |= p.first == m[i][0] && p.second == m[i][1];
    for (size_t j = 0; j < i; j++) found &= m[j] != m[i];
    rs_check(found, "each direction is a peak of the spectrum, given once");
    if (i < normals.size()) rs_check(same<3>(normals[i], d.getNormal(m[i])), "the normal of the direction");
  }
  std::vector<HoughPlaneDetector::Indices3> all;
  HoughPlaneDetector::VectorPlaneParam params;
  d.findPlanes(all);
  d.findPlanes(params);
  size_t want = 0;
  for (auto& p : top) want += peaks(ht[p.first * P + p.second], wr).size();
  rs_check(all.size() == want && params.size() == want, "as many planes as peaks along the directions");
  for (size_t i = 0; i < all.size(); i++) {
    bool found = false;
    for (auto& p : top) if (p.first == all[i][0] && p.second == all[i][1]) for (int r : peaks(ht[p.first * P + p.second], wr)) found |= r == all[i][2];
    for (size_t j = 0; j < i; j++) found &= all[j] != all[i];
    rs_check(found, "each plane is a peak along a direction of the spectrum, given once");
    if (i) rs_check(d.getHoughTransform(all[i]) <= d.getHoughTransform(all[i - 1]), "the planes with more votes come first");
    if (i < params.size()) rs_check(same<4>(params[i], d.getPlaneParam(all[i])), "the parameters of the plane");
  }
  for (int c = 0; c < T * P; c++) {
    std::vector<int> pk = peaks(ht[c], wr);
    std::vector<HoughPlaneDetector::Indices3> par(3);
    HoughPlaneDetector::VectorPlaneParam pp(5);
    d.findParallelPlanes(c / P, c % P, par);
    d.findParallelPlanes(c / P, c % P, pp);
    rs_check(par.size() == pk.size() && pp.size() == pk.size(), "as many parallel planes as peaks along the direction");
    for (size_t i = 0; i < par.size(); i++) {
      bool found = false;
      for (int r : pk) found |= par[i][0] == c / P && par[i][1] == c % P && par[i][2] == r;
      for (size_t j = 0; j < i; j++) found &= par[j] != par[i];
      rs_check(found, "each parallel plane is a peak along the direction, given once");
      if (i < pp.size()) rs_check(same<4>(pp[i], d.getPlaneParam(par[i])), "the parameters of the parallel plane");
    }
  }
}
// ---- C27
RS_ENTRY(line_votes) {
  int T = (int)rs_param("T", 2), R = (int)rs_param("R", 3), n = (int)rs_param("n", 2), dflt = (int)rs_param("dflt", 0);
  Vector2 mn, rs;
  mn << (float)rs_param("t0", 0) / 8, (float)rs_param("r0", -8) / 8;
  rs << (float)rs_param("tr", 6) / 8, (float)rs_param("rr", 6) / 8;
  HoughLineDetector d = dflt == 2 ? HoughLineDetector(T, R, rs(1)) : HoughLineDetector();
  if (dflt == 2) { mn << 0, 0; rs(0) = (float)(M_PI / T); }
  else if (dflt) { d.init(T, R, rs(1)); mn << 0, 0; rs(0) = (float)(M_PI / T); } else d.init({T, R}, mn, rs);
  rs_check(d.getThetaNum() == T && d.getRhoNum() == R, "numbers of bins");
  rs_check((d.getThetaMin() == mn(0)) & (d.getRhoMin() == mn(1)) & near(d.getThetaRes(), rs(0), 1e-6) & (d.getRhoRes() == rs(1)), "ranges");
  VectorVector2 pts;
  std::vector<std::vector<double>> q(T);
  double g = 1e-3, L = (double)rs_param("L", 3);
  if (rs_param("form", 0) == 1) { VectorVector2 old(2, Vector2(0.1f, 0.2f)); d.insert(old); d.setZero(); }
  for (int i = 0; i < n; i++) {
    float x = rs_realf("x", -L, L), y = rs_realf("y", -L, L);
    pts.push_back(Vector2(x, y));
    for (int t = 0; t < T; t++) {
      double th = (double)mn(0) + (double)rs(0) * t, v = (cos(th) * x + sin(th) * y - mn(1)) / rs(1);
      rs_assume(clear(v, R, g));
      q[t].push_back(v);
    }
  }
  d.insert(pts);
  std::vector<std::vector<int>> ht(T);
  std::vector<int> hs(T);
  for (int c = 0; c < T; c++) {
    int s = 0;
    for (int r = 0; r < R; r++) {
      int h = (int)d.getHoughTransform(c, r);
      rs_check((int)d.getHoughTransform({c, r}) == h, "both accessors give the same counter");
      ht[c].push_back(h); s += h * h; rs_observe("ht", h);
    }
    votes(q[c], ht[c]);
    hs[c] = (int)d.getHoughSpectrum(c);
    rs_check(hs[c] == s, "the spectrum is the sum of the squared counters");
  }
  int wt = (int)rs_param("wt", 1), wr = (int)rs_param("wr", 1);
  if (rs_param("form", 0) == 2) d.setPeakWindow((wt - 0.5f) * rs(0), (wr - 0.25f) * rs(1)); else d.setPeakWindow(wt, wr);
  std::vector<int> top = peaks(hs, wt), idx;
  std::vector<HoughLineDetector::Indices1> m;
  std::vector<Scalar> ang;
  VectorVector2 nrm;
  d.findSpectrumIndicesMax(m);
  d.findSpectrumIndexMax(idx);
  d.findSpectrumAngleMax(ang);
  d.findNormalMax(nrm);
  rs_check(m.size() == top.size() && idx.size() == top.size() && ang.size() == top.size() && nrm.size() == top.size(), "as many directions as peaks of the spectrum");
  for (size_t i = 0; i < m.size() && i < idx.size() && i < ang.size() && i < nrm.size(); i++) {
    bool found = false;
    for (int t : top) found |= t == m[i][0];
    for (size_t j = 0; j < i; j++) found &= m[j] != m[i];
    rs_check(found && idx[i] == m[i][0], "each direction is a peak of the spectrum, given once");
    double th = (double)mn(0) + (double)rs(0) * m[i][0];
    rs_check(near(ang[i], th, 1e-5) & near(nrm[i](0), cos(th), 1e-5) & near(nrm[i](1), sin(th), 1e-5), "angle and normal of the direction");
  }
  std::vector<HoughLineDetector::Indices2> all;
  d.findLines(all);
  size_t want = 0;
  for (int t : top) want += peaks(ht[t], wr).size();
  rs_check(all.size() == want, "as many lines as peaks along the directions");
  for (size_t i = 0; i < all.size(); i++) {
    bool found = false;
    for (int t : top) if (t == all[i][0]) for (int r : peaks(ht[t], wr)) found |= r == all[i][1];
    for (size_t j = 0; j < i; j++) found &= all[j] != all[i];
    rs_check(found, "each line is a peak along a direction of the spectrum, given once");
  }
}
