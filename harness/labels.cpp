// C14 LabelSet
// the header defines a non-inline operator<<, so the implementation is included here
#include <iterator>
#include <vector>
#include "common/src/label_set.cpp"
#include "rs.h"
using namespace rofl;

static bool has(const int* v, int n, int x) { bool r = false; for (int i = 0; i < n; i++) r = r | (v[i] == x); return r; }
static int distinct(const int* v, int n) { int c = 0; for (int i = 0; i < n; i++) c += !has(v, i, v[i]); return c; }
// content of s is exactly {x : member(x)} for the candidate labels in `all`, sorted, no duplicates
template <typename F> static void content(const LabelSet& s, const int* all, int n, F member, const char* what) {
  size_t cnt = 0;
  bool sorted = true, ok = true;
  int prev = 0;
  for (auto it = s.begin(); it != s.end(); ++it) {
    if (cnt) sorted = sorted & (prev < *it);
    ok = ok & member(*it) & has(all, n, *it);
    prev = *it;
    cnt++;
  }
  rs_check(sorted, "labels are visited once each in increasing order");
  rs_check(ok, what);
  rs_check(s.size() == cnt && s.empty() == (cnt == 0), "size is the number of labels");
  size_t want = 0;
  for (int i = 0; i < n; i++) want += !has(all, i, all[i]) & member(all[i]);
  rs_check(cnt == want, what);
}
RS_ENTRY(label_basic) {
  int n = (int)rs_param("n", 3), v[6];
  LabelSet s;
  for (int i = 0; i < n; i++) {
    v[i] = rs_i32("v");
    bool was = has(v, i, v[i]);
    rs_check(s.insert(v[i]) == was, "insert tells whether the label was already inside");
  }
  content(s, v, n, [&](int x) { return has(v, n, x); }, "a set contains exactly the inserted labels");
  int q = rs_i32("q");
  bool in = has(v, n, q);
  rs_check(s.inside(q) == in, "inside exactly the inserted labels");
  rs_observe("in", s.inside(q));
  LabelSet r(v, v + n), c(s);
  rs_check(r == s && !(r != s) && c == s, "construction from a range and copy give the same set");
  int all[7];
  for (int i = 0; i < n; i++) all[i] = v[i];
  all[n] = q;
  content(s.unionSet(q), all, n + 1, [&](int x) { return has(all, n + 1, x); }, "union with a label");
  LabelSet d = s.differenceSet(q);
  content(d, all, n + 1, [&](int x) { return (x != q) & has(v, n, x); }, "difference with a label");
  rs_check(s.inside(q) == in && c == s, "set operations do not change their operands");
  s.remove(q);
  rs_check(!s.inside(q) && s == d, "remove erases the label and only that");
  s.clear();
  rs_check(s.empty() && s.size() == 0, "clear empties the set");
}
RS_ENTRY(label_algebra) {
  int n = (int)rs_param("n", 2), m = (int)rs_param("m", 2), op = (int)rs_param("op", 0), v[12], *w = v + n;
  for (int i = 0; i < n + m; i++) v[i] = rs_i32("v");
  LabelSet a(v, v + n), b(w, w + m);
  if (op == 0) content(a.unionSet(b), v, n + m, [&](int x) { return has(v, n + m, x); }, "union: the labels of either set");
  else if (op == 1) content(a.intersectionSet(b), v, n + m, [&](int x) { return has(v, n, x) & has(w, m, x); }, "intersection: the labels of both sets");
  else if (op == 2) content(a.differenceSet(b), v, n + m, [&](int x) { return has(v, n, x) & !has(w, m, x); }, "difference: the labels of the first set that are not in the second");
  else {
    bool same = true;
    for (int i = 0; i < n; i++) same = same & has(w, m, v[i]);
    for (int i = 0; i < m; i++) same = same & has(v, n, w[i]);
    bool e = a == b, ne = a != b;
    rs_observe("eq", e);
    rs_check(e == same, "two sets are equal exactly when they have the same labels");
    rs_check(ne == !same, "two sets are different exactly when they have not the same labels");
    rs_check((b == a) == e, "equality is symmetric");
  }
  content(a, v, n, [&](int x) { return has(v, n, x); }, "operands are unchanged");
  content(b, w, m, [&](int x) { return has(w, m, x); }, "operands are unchanged");
}
