// C28: maximum cliques of the correspondence graph
#include <cmath>
#include <map>
#include <set>
#include <vector>
// label_set.h defines a non-inline operator<<, so the implementations are included here
#include "common/src/label_set.cpp"
#include "geometry/src/correspondence_graph_association.cpp"
#include "rs.h"
using namespace rofl;
typedef CorrespondenceGraphAssociation A;
RS_ENTRY(corr) {
  int S = (int)rs_param("S", 2), D = (int)rs_param("D", 3), N = S * D;
  double tol = (double)rs_param("tol", 4) / 8, dmin = (double)rs_param("dmin", 8) / 8, g = 1e-3, L = 10;
  std::vector<int> is, id;
  std::vector<std::vector<float>> ds(S, std::vector<float>(S, 0)), dd(D, std::vector<float>(D, 0));
  for (int i = 0; i < S; i++) { is.push_back(i); for (int j = 0; j < i; j++) { ds[i][j] = ds[j][i] = rs_realf("src", 0, L); rs_assume((ds[i][j] - dmin >= g) | (dmin - ds[i][j] >= g)); } }
  for (int i = 0; i < D; i++) { id.push_back(i); for (int j = 0; j < i; j++) dd[i][j] = dd[j][i] = rs_realf("dst", 0, L); }
  for (int i = 0; i < S; i++) for (int j = 0; j < i; j++) for (int k = 0; k < D; k++) for (int l = 0; l < k; l++) {
    double e = (double)ds[i][j] - dd[k][l];
    rs_assume(((e - tol >= g) | (tol - e >= g)) & ((-e - tol >= g) | (tol + e >= g)));
  }
  // one order of the distances of each set only
  if (rs_param("ord", 0)) rs_assume((ds[0][1] < ds[0][2]) & (ds[0][2] < ds[1][2]) & (dd[1][2] < dd[0][1]) & (dd[0][1] < dd[0][2]));
  A a;
  a.setTolerance((float)tol);
  a.setDistanceMin((float)dmin);
  a.insertSrc(is.begin(), is.end(), [&](int i, int j) -> Scalar { return ds[i][j]; });
  a.insertDst(id.begin(), id.end(), [&](int i, int j) -> Scalar { return dd[i][j]; });
  std::vector<A::AssociationHypothesis> h(2);
  if (rs_param("twice", 0)) { std::vector<LabelSet> c; a.associate(c); }
  a.associate(h);
  // coherent pairs of associations
  std::vector<unsigned> adj(N, 0);
  for (int p = 0; p < N; p++) for (int q = 0; q < p; q++) {
    int i = p / D, k = p % D, j = q / D, l = q % D;
    if (i == j || k == l) continue;
    double e = (double)ds[i][j] - dd[k][l];
    if ((e < tol) & (-e < tol) & (ds[i][j] > dmin)) { adj[p] |= 1u << q; adj[q] |= 1u << p; }
  }
  int best = 0;
  std::set<unsigned> all;
  for (unsigned m = 0; m < (1u << N); m++) {
    bool clique = true;
    int n = 0;
    for (int p = 0; p < N && clique; p++) if (m >> p & 1) { n++; clique = (m & ~(1u << p) & ~adj[p]) == 0; }
    if (!clique || n < best) continue;
    if (n > best) all.clear();
    best = n; all.insert(m);
  }
  rs_observe("best", best);
  std::set<unsigned> got;
  for (auto& x : h) {
    unsigned m = 0;
    for (auto& p : x.associations) {
      rs_check(p.first >= 0 && p.first < S && p.second >= 0 && p.second < D, "associations of given items");
      m |= 1u << (p.first * D + p.second);
    }
    rs_check((int)x.associations.size() == best, "as many associations as mutually coherent ones exist");
    rs_check(all.count(m) == 1, "the associations are mutually coherent");
    rs_check(got.insert(m).second, "each hypothesis is given once");
  }
  rs_check(got.size() == all.size(), "every largest set of mutually coherent associations is given");
}
