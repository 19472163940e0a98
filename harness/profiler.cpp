// C17: profiler statistics, scoped timer
#include <rofl/common/profiler.h>
#include <sstream>
#include <vector>
#include "rs.h"
using namespace rofl;
struct Row { std::string label; double v[4]; double count; };
struct Prof : public Profiler { Prof() {} ~Prof() {} };
static std::vector<Row> rows(const Profiler& p) {
  std::ostringstream out;
  out.precision(17);
#ifdef RSYM_SYMBOLIC
  rsio_numbers.clear();
#endif
  p.printStats(out);
  std::string s = out.str(), w;
  std::vector<std::string> tok;
  for (char c : s) { if (c == ' ' || c == '\t' || c == '\n') { if (!w.empty()) tok.push_back(w); w.clear(); } else w.push_back(c); }
  if (!w.empty()) tok.push_back(w);
  size_t ni = 0;
  auto num = [&](const std::string& t) -> double {
#ifdef RSYM_SYMBOLIC
    if (t == "#" && ni < rsio_numbers.size()) return rsio_numbers[ni++];
    double r = 0; for (char c : t) r = r * 10 + (c - '0'); return r;
#else
    return strtod(t.c_str(), nullptr);
#endif
  };
  std::vector<Row> rs;
  rs_check(tok.size() % 6 == 0, "each row has a label, four values and a count");
  for (size_t i = 0; i + 5 < tok.size(); i += 6) {
    Row r; r.label = tok[i];
    for (int k = 0; k < 4; k++) r.v[k] = num(tok[i + 1 + k]);
    r.count = num(tok[i + 5]);
    rs.push_back(r);
  }
  return rs;
}
static bool near(double a, double b, double tol) { return (a - b <= tol) & (b - a <= tol); }
static void checkRow(const Row& r, const std::vector<double>& x, double tol) {
  int n = (int)x.size();
  double mean = 0, var = 0, mn = x[0], mx = x[0];
  for (double v : x) { mean += v / n; mn = rs_ite_d(v < mn, v, mn); mx = rs_ite_d(v > mx, v, mx); }
  for (double v : x) var += (v - mean) * (v - mean) / (n > 1 ? n - 1 : 1);
  for (int k = 0; k < 4; k++) rs_observe_d("stat", r.v[k]);
  rs_check(r.count == n, "number of measures");
  rs_check(near(r.v[0], mean, tol), "mean of the measures");
  rs_check(near(r.v[1], var, tol), "variance of the measures");
  rs_check((r.v[2] == mn) | near(r.v[2], mn, tol), "minimum of the measures");
  rs_check(near(r.v[3], mx, tol), "maximum of the measures");
}
RS_ENTRY(stats) {
  int n = (int)rs_param("n", 3), nl = (int)rs_param("labels", 2);
  const char* names[] = {"beta", "alpha", "alphabet"};
  std::vector<double> x[3];
  Prof p;
  for (int i = 0; i < n; i++) {
    int l = rs_choose("label", nl);
    double v = rs_real("time", 0, 1000);
    x[l].push_back(v);
    p.updateStat(names[l], v);
  }
  std::vector<Row> rs = rows(p);
  int used = 0;
  for (int l = 0; l < nl; l++) if (!x[l].empty()) {
    used++;
    int found = 0;
    for (auto& r : rs) if (r.label == names[l]) { found++; checkRow(r, x[l], 1e-6); }
    rs_check(found == 1, "one row per label");
  }
  rs_check((int)rs.size() == used, "no other rows");
}
// steady clock under control of the harness (both sides)
static int64_t rs_now = 1000000000;
namespace std { namespace chrono { steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(steady_clock::duration(rs_now)); }
system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(system_clock::duration(rs_now)); } } }
RS_ENTRY(timer) {
  // two measures of the same label, a nested one of another label; times in ns
  const int64_t dts[] = {0, 1, 999999, 1500000, 7000000000LL};
  int64_t a = dts[rs_choose("a", 5)], b = dts[rs_choose("b", 5)], c = dts[rs_choose("c", 3)];
  {
    ScopedTimer t("outer");
    rs_now += a;
    double e1 = t.elapsedTimeMs();
    rs_check(near(e1, a * 1e-6, 1e-9 * (1 + a * 1e-6)), "elapsed time in milliseconds");
    { ScopedTimer u("inner"); rs_now += b; }
    double e2 = t.elapsedTimeMs();
    rs_check(near(e2, (a + b) * 1e-6, 1e-9 * (1 + (a + b) * 1e-6)), "elapsed time in milliseconds");
  }
  { ScopedTimer t("outer"); rs_now += c; }
  std::vector<Row> rs = rows(Profiler::getProfiler());
  rs_check(rs.size() == 2, "two labels");
  for (auto& r : rs) {
    bool o = r.label == "outer";
    rs_check(o || r.label == "inner", "labels of the timers");
    double x1 = (a + b) * 1e-6, x2 = c * 1e-6, mean = o ? (x1 + x2) / 2 : b * 1e-6, d = x1 - x2;
    rs_check(r.count == (o ? 2 : 1), "one measure per scope");
    rs_check(near(r.v[0], mean, 1e-9 * (1 + mean)), "mean of the measures");
    rs_check(near(r.v[1], o ? d * d / 2 : 0, 1e-9 * (1 + d * d)), "variance of the measures");
  }
}
