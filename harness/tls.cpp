// C22: truncated least squares consensus
#include <algorithm>
#include <cmath>
#include <vector>
#include <rofl/common/tls_scalar_consensus.h>
#include "rs.h"
using namespace rofl;
static bool near(double a, double b, double tol) { return (a - b <= tol) & (b - a <= tol); }
RS_ENTRY(tls) {
  int n = (int)rs_param("n", 2);
  std::vector<double> v(n), r(n);
  double rg[4] = {(double)rs_param("r0", 4) / 8, (double)rs_param("r1", 4) / 8, (double)rs_param("r2", 8) / 8, (double)rs_param("r3", 8) / 8};
  for (int i = 0; i < n; i++) { v[i] = rs_real("v", -10, 10); r[i] = rg[i]; }
  // order of the values (0: any; else one of the six orders of three values)
  static const int ord[7][3] = {{0, 0, 0}, {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  int o = (int)rs_param("ord", 0);
  if (o) rs_assume((v[ord[o][0]] < v[ord[o][1]]) & (v[ord[o][1]] < v[ord[o][2]]));
  // end points of the acceptance intervals at least 1e-3 apart
  std::vector<double> e(2 * n);
  for (int i = 0; i < n; i++) { e[2 * i] = v[i] - r[i]; e[2 * i + 1] = v[i] + r[i]; }
  bool apart = true;
  for (int i = 0; i < 2 * n; i++) for (int j = 0; j < i; j++) apart &= (e[i] - e[j] >= 1e-3) | (e[j] - e[i] >= 1e-3);
  rs_assume(apart);
  double value = 12345;
  std::vector<bool> in(rs_param("old", 0) ? n : 0, true);
  estimateTranslationTls(v, r, value, in);
  rs_observe_d("value", value);
  rs_check((int)in.size() == n, "one inlier flag per value");
  bool flags = true;
  for (int i = 0; i < n; i++) {
    double d = v[i] - value, q = r[i], t = 1e-6;
    bool I = in[i];
    flags &= I ? ((d <= q + t) & (-d <= q + t)) : ((d >= q - t) | (-d >= q - t));
  }
  rs_check(flags, "inliers are the values within their range of the estimate");
  // all consensus sets along the line: the one just after each end point
  std::vector<double> hat, cost;
  for (int j = 0; j < 2 * n; j++) {
    double sw = 0, swv = 0, c = 0, h;
    std::vector<int> set;
    for (int i = 0; i < n; i++) {
      bool m = i == j / 2 ? j % 2 == 0 : (bool)((e[2 * i] < e[j]) & (e[j] < e[2 * i + 1]));
      if (m) { set.push_back(i); sw += 1 / (r[i] * r[i]); swv += v[i] / (r[i] * r[i]); } else c += r[i];
    }
    if (set.empty()) continue;
    h = swv / sw;
    for (int i : set) c += (v[i] - h) * (v[i] - h);
    hat.push_back(h); cost.push_back(c);
  }
  bool best = false;
  for (size_t j = 0; j < hat.size(); j++) {
    bool ok = near(value, hat[j], 1e-6);
    for (size_t k = 0; k < hat.size(); k++) ok &= cost[j] <= cost[k] + 1e-6;
    best |= ok;
  }
  rs_check(best, "the estimate is the weighted mean of the consensus set of minimum truncated cost");
}
