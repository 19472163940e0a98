// C07 MortonTree, C08 DisjointSet, C09 MinMaxHeap.
#include "rs.h"
#include <rofl/common/disjoint_set.h>
#include <rofl/common/min_max_heap.h>
#include <rofl/common/morton_tree.h>
#include <iterator>
#include <vector>
using namespace rofl;

// ---------------------------------------------------------------- C07
typedef MortonTree<int, 2> Tree;
template <typename I> static uint32_t okey(I x) { return (uint32_t)x ^ 0x80000000u; }
// a before b in Z-order: highest different bit, dimension 0 first (Chan's criterion on order preserving keys)
static bool zl(const int* a, const int* b) {
  uint32_t x = okey(a[0]) ^ okey(b[0]), y = okey(a[1]) ^ okey(b[1]);
  bool second = (x < y) & (x < (x ^ y));
  return rs_ite(second, a[1] < b[1], a[0] < b[0]) != 0;
}
static const int NMAX = 6;
static Tree::Item pts[NMAX];
static void mkPoints(int n, int lim) {
  for (int i = 0; i < n; i++) {
    pts[i].id = 100 + i;
    for (int d = 0; d < 2; d++) {
      pts[i].values[d] = rs_i32("p");
      if (lim) rs_assume((pts[i].values[d] >= -lim) & (pts[i].values[d] <= lim));
    }
  }
}
struct Conv { Tree::Item operator()(const Tree::Item& x) { return x; } };
// inserts with one of the insertion functions; ids become 0..n-1 when reset
static void fill(Tree& t, int n, int mode) {
  std::vector<Tree::Item> v(pts, pts + n);
  Conv c;
  if (mode == 0) for (int i = 0; i < n; i++) t.insert(pts[i]);
  else if (mode == 1) t.insert(v.begin(), v.end());
  else if (mode == 2) t.insert(v.begin(), v.end(), c);
  else if (mode == 3) for (int i = 0; i < n; i++) t.insert(pts[i], false);
  else if (mode == 4) t.insert(v.begin(), v.end(), false);
  else if (mode == 5) t.insert(v.begin(), v.end(), c, false);
  else { for (int i = 0; i < n / 2; i++) t.insert(pts[i]); t.insert(v.begin() + n / 2, v.end()); }
}
static void permutation(Tree& t, int n, int mode) {
  int base = (mode >= 3 && mode <= 5) ? 100 : 0;
  rs_check(t.size() == (size_t)n, "every inserted item is stored");
  bool ok = true, seen[NMAX] = {};
  for (auto it = t.begin(); it != t.end(); ++it) {
    int k = (int)rs_concrete(it->id) - base;
    rs_check(k >= 0 && k < n, "the id of an item is its insertion rank, or the id given by the user");
    if (k < 0 || k >= n) return;
    ok = ok & !seen[k] & (it->values[0] == pts[k].values[0]) & (it->values[1] == pts[k].values[1]);
    seen[k] = true;
  }
  rs_check(ok, "the tree stores each inserted item once, with its coordinates");
}
RS_ENTRY(tree_find) {
  int n = (int)rs_param("n", 3), mode = (int)rs_param("mode", 0);
  mkPoints(n, 0);
  Tree t;
  fill(t, n, mode);
  Tree::Item q;
  q.values[0] = rs_i32("q"); q.values[1] = rs_i32("q");
  auto it = t.findItem(q);
  permutation(t, n, mode);
  bool sorted = true;
  for (int i = 0; i + 1 < n; i++) sorted = sorted & !zl((t.begin() + i + 1)->values, (t.begin() + i)->values);
  rs_check(sorted, "items are sorted in Morton order after a query");
  long k = rs_concrete(it - t.begin());
  rs_observe("k", (uint64_t)k);
  rs_check(k >= 0 && k <= n, "findItem returns a position of the tree");
  if (k < 0 || k > n) return;
  bool ok = true;
  for (int i = 0; i < n; i++) ok = ok & (zl((t.begin() + i)->values, q.values) == (i < k));
  rs_check(ok, "findItem returns the first item that is not before the query");
}
RS_ENTRY(tree_level) {
  int n = (int)rs_param("n", 3);
  mkPoints(n, 0);
  Tree t;
  fill(t, n, 0);
  t.sort();
  int lv = t.computeLevel(t.begin(), t.end());
  rs_observe("level", lv);
  uint32_t x = 0;
  const Tree::Item& f = *t.begin();
  for (int i = 1; i < n; i++) for (int d = 0; d < 2; d++) x |= okey(f.values[d]) ^ okey((t.begin() + i)->values[d]);
  uint64_t X = x;
  rs_check((lv >= 0) & (lv <= 32), "level range");
  rs_check((X >> (lv & 63)) == 0, "the subtree of the computed level contains every item of the interval");
  rs_check((lv == 0) | ((X >> ((lv - 1) & 63)) != 0), "the level is minimal");
}
RS_ENTRY(tree_box) {
  int n = (int)rs_param("n", 3), center = (int)rs_param("center", 0);
  const int L = 1 << 20;
  mkPoints(n, center ? L : 0);
  Tree t;
  fill(t, n, 0);
  Tree::Item lo, hi, c;
  std::vector<Tree::ConstIterator> r;
  if (center) {
    int range = (int)rs_int("range", 0, L);
    for (int d = 0; d < 2; d++) { c.values[d] = (int)rs_int("c", -L, L); lo.values[d] = c.values[d] - range; hi.values[d] = c.values[d] + range; }
    t.searchInBox(c, range, r);
  } else {
    for (int d = 0; d < 2; d++) { lo.values[d] = rs_i32("lo"); hi.values[d] = rs_i32("hi"); rs_assume(lo.values[d] <= hi.values[d]); }
    t.searchInBox(lo, hi, r);
  }
  rs_observe("found", r.size());
  bool found[NMAX] = {};
  for (auto it : r) {
    int k = (int)rs_concrete(it->id);
    rs_check(k >= 0 && k < n && !found[k], "searchInBox returns each item at most once");
    if (k < 0 || k >= n) return;
    found[k] = true;
  }
  bool ok = true;
  for (int i = 0; i < n; i++) {
    bool in = true;
    for (int d = 0; d < 2; d++) in = in & (lo.values[d] <= pts[i].values[d]) & (pts[i].values[d] <= hi.values[d]);
    ok = ok & (in == found[i]);
  }
  rs_check(ok, "searchInBox returns exactly the items inside the box");
}

// insertions after a query: k items, a query, the other items with another insertion function, a query
RS_ENTRY(tree_history) {
  int n = (int)rs_param("n", 3), k = (int)rs_param("k", 2), mode = (int)rs_param("mode", 0), how = (int)rs_param("how", 0);
  mkPoints(n, 0);
  Tree t0;
  fill(t0, k, 0);
  Tree::Item q;
  q.values[0] = rs_i32("q"); q.values[1] = rs_i32("q");
  std::vector<Tree::ConstIterator> r;
  if (how == 0) t0.findItem(q);
  else if (how == 1) t0.searchInBox(q, q, r);
  else if (how == 2) t0.sort();
  else t0.computeLevel(t0.begin(), t0.end());
  Tree t(t0);
  std::vector<Tree::Item> v(pts + k, pts + n);
  Conv c;
  if (mode == 0) for (int i = k; i < n; i++) t.insert(pts[i]);
  else if (mode == 1) t.insert(v.begin(), v.end());
  else t.insert(v.begin(), v.end(), c);
  auto it = t.findItem(q);
  permutation(t, n, mode);
  long at = rs_concrete(it - t.begin());
  rs_check(at >= 0 && at <= n, "findItem returns a position of the tree");
  if (at < 0 || at > n) return;
  bool ok = true;
  for (int i = 0; i < n; i++) ok = ok & (zl((t.begin() + i)->values, q.values) == (i < at));
  for (int i = 0; i + 1 < n; i++) ok = ok & !zl((t.begin() + i + 1)->values, (t.begin() + i)->values);
  rs_check(ok, "items inserted after a query are sorted and found");
}
// concrete items in dimension 2 or 3, any query and any box
template <typename S, int D> static void cloud(int L) {
  typedef MortonTree<S, D> T;
  static const int C[14][3] = {{0, 0, 0}, {1, 0, 3}, {3, 3, 3}, {4, 3, 4}, {-1, 0, 2}, {-4, -4, -4}, {5, -2, 1}, {3, 4, 0}, {0, 0, 0}, {-3, 2, -1}, {7, 7, 7}, {2, 6, -5}, {-8, 5, 4}, {4, 4, 4}};
  int n = (int)rs_param("n", 9), n1 = (int)rs_param("first", n), pre = (int)rs_param("pre", 0);
  T t;
  typename T::Item q, lo, hi;
  for (int i = 0; i < n; i++) {
    typename T::Item x;
    for (int d = 0; d < D; d++) x.values[d] = (S)C[i][d];
    t.insert(x);
    if (i + 1 == n1) t.findItem(x);
  }
  for (int d = 0; d < D; d++) { int a = (int)rs_int("lo", -L, L), w = (int)rs_int("w", 0, L); lo.values[d] = (S)a; hi.values[d] = (S)(a + w); }
  std::vector<typename T::ConstIterator> r(pre, t.begin());
  t.searchInBox(lo, hi, r);
  rs_check(t.size() == (size_t)n, "every inserted item is stored");
  bool found[14] = {};
  for (size_t i = pre; i < r.size(); i++) {
    int k = (int)rs_concrete(r[i]->id);
    rs_check(k >= 0 && k < n && !found[k], "searchInBox returns each item at most once");
    if (k < 0 || k >= n) return;
    found[k] = true;
  }
  bool ok = true;
  for (int i = 0; i < n; i++) {
    bool in = true;
    for (int d = 0; d < D; d++) in = in & (lo.values[d] <= (S)C[i][d]) & ((S)C[i][d] <= hi.values[d]);
    ok = ok & (in == found[i]);
  }
  rs_check(ok, "searchInBox returns exactly the items inside the box");
}
RS_ENTRY(cloud_i2) { cloud<int, 2>((int)rs_param("L", 9)); }
RS_ENTRY(cloud_i3) { cloud<int, 3>((int)rs_param("L", 9)); }
RS_ENTRY(cloud_l2) { cloud<long, 2>((int)rs_param("L", 9)); }

// ---------------------------------------------------------------- C08
// every query is made on a copy first, so that no earlier find has shortened the paths
static void dsetCheck(DisjointSet& ds, int n, int sets, const int* lab) {
  rs_check(ds.setNum() == sets, "setNum is the number of sets");
  rs_check(ds.nodeNum() == (size_t)n && ds.size() == (size_t)n, "nodeNum is the number of nodes");
  bool ok = true, okSize = true;
  for (int i = 0; i < n; i++) {
    int cnt = 0;
    for (int j = 0; j < n; j++) cnt += lab[i] == lab[j];
    DisjointSet c(ds);
    okSize = okSize && c.size(i) == (size_t)cnt;
  }
  rs_check(okSize, "size of a set is the number of its items");
  std::vector<int> roots;
  ds.parents(std::back_inserter(roots));
  bool okr = roots.size() == (size_t)sets;
  for (size_t i = 0; okr && i < roots.size(); i++) { DisjointSet c(ds); okr = c.find(roots[i]) == roots[i] && (i == 0 || roots[i] > roots[i - 1]); }
  rs_check(okr, "parents lists each representative once");
  int rep[16];
  for (int i = 0; i < n; i++) {
    DisjointSet c(ds);
    rep[i] = c.find(i);
    ok = ok && rep[i] >= 0 && rep[i] < n && lab[rep[i]] == lab[i];
    if (!ok) break;
  }
  if (ok) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) ok = ok && ((rep[i] == rep[j]) == (lab[i] == lab[j]));
  // the answers do not change when the queries are repeated in a row
  for (int i = 0; ok && i < n; i++) ok = ds.find(i) == rep[i];
  for (int i = 0; ok && i < n; i++) ok = ds.find(i) == rep[i];
  rs_check(ok, "two items have the same representative exactly when they have been joined");
  rs_check(ds.find(n) == n && ds.find(-1) == n && ds.size(n) == 0 && ds.size(-1) == 0, "invalid ids are reported");
  rs_check(ds.setNum() == sets, "queries leave the sets as they are");
}
static void dsetJoin(DisjointSet& ds, int a, int b, int n, int& sets, int* lab, bool look) {
  bool va = a >= 0 && a < n, vb = b >= 0 && b < n;
  int r = ds.join(a, b);
  rs_observe("join", (uint64_t)r);
  if (va && vb && lab[a] != lab[b]) {
    int la = lab[a], lb = lab[b];
    rs_check(r >= 0 && r < n && (lab[r] == la || lab[r] == lb), "join returns the representative of the union");
    for (int i = 0; i < n; i++) if (lab[i] == lb) lab[i] = la;
    sets--;
    if (look) rs_check(ds.find(a) == r && ds.find(b) == r, "after a join both items have the returned representative");
    else { DisjointSet c(ds), d(ds); rs_check(c.find(a) == r && d.find(b) == r, "after a join both items have the returned representative"); }
  } else
    rs_check(r == n, "join of one set or of invalid ids returns the number of nodes and joins nothing");
}
RS_ENTRY(dset) {
  const int n0 = (int)rs_param("n", 3), mk = (int)rs_param("mk", 1), K = (int)rs_param("k", 3), how = (int)rs_param("how", 0);
  const int M = 8;
  DisjointSet ds(how == 0 ? n0 : 2);
  if (how == 1) ds.initSets(n0);
  int n = n0, sets = n0, lab[M];
  for (int i = 0; i < M; i++) lab[i] = i;
  int mkAt = mk ? rs_choose("mkat", K + 1) : -1;
  for (int k = 0; k <= K; k++) {
    if (k == mkAt) {
      int id = ds.makeSet();
      rs_check(id == n, "makeSet returns the id of the new node");
      n++; sets++;
    }
    if (k == K) break;
    int inv = k + 1 == K && rs_param("inv", 1);  // invalid ids on the last join
    int a = (int)rs_int("a", inv ? -1 : 0, inv ? n : n - 1), b = (int)rs_int("b", inv ? -1 : 0, inv ? n : n - 1);
    if (rs_param("conc", 0)) { a = (int)rs_concrete(a); b = (int)rs_concrete(b); }
    dsetJoin(ds, a, b, n, sets, lab, rs_param("look", 0));
  }
  dsetCheck(ds, n, sets, lab);
}
// a forest as deep as it gets (eight items joined pairwise), a used or reinitialised object, then any joins
RS_ENTRY(dset_deep) {
  const int K = (int)rs_param("k", 2), J = (int)rs_param("joins", 7), how = (int)rs_param("how", 0), M = 12;
  static const int A[7] = {0, 2, 4, 6, 1, 7, 3}, B[7] = {1, 3, 5, 7, 3, 5, 6};
  DisjointSet ds(how == 2 ? 5 : 9);
  if (how == 2) { ds.join(0, 4); ds.join(3, 4); ds.makeSet(); ds.initSets(9); }
  if (how == 1) { DisjointSet e; for (int i = 0; i < 9; i++) rs_check(e.makeSet() == i, "makeSet returns the id of the new node"); ds = e; }
  int n = 9, sets = 9, lab[M];
  for (int i = 0; i < M; i++) lab[i] = i;
  for (int k = 0; k < J; k++) dsetJoin(ds, how ? B[k] : A[k], how ? A[k] : B[k], n, sets, lab, false);
  for (int k = 0; k < K; k++) {
    int a = (int)rs_int("a", -1, n), b = (int)rs_int("b", -1, n);
    a = (int)rs_concrete(a); b = (int)rs_concrete(b);
    dsetJoin(ds, a, b, n, sets, lab, false);
  }
  dsetCheck(ds, n, sets, lab);
}

// ---------------------------------------------------------------- C09
static void checkHeap(const MinMaxHeap<int>& h, const int* v, const bool* in, int n, int cnt) {
  rs_check(h.size() == (size_t)cnt && h.empty() == (cnt == 0), "size of the heap");
  if (cnt == 0) return;
  int top = h.top(), bot = h.bottom();
  bool ge = true, le = true, et = false, eb = false;
  for (int i = 0; i < n; i++) if (in[i]) { ge = ge & (v[i] >= top); le = le & (v[i] <= bot); et = et | (v[i] == top); eb = eb | (v[i] == bot); }
  rs_check(ge & et, "top is the minimum of the heap");
  rs_check(le & eb, "bottom is the maximum of the heap");
}
static int countLess(const int* v, const bool* in, int n, int x) { int c = 0; for (int i = 0; i < n; i++) if (in[i]) c += v[i] < x; return c; }
static int countGreater(const int* v, const bool* in, int n, int x) { int c = 0; for (int i = 0; i < n; i++) if (in[i]) c += v[i] > x; return c; }
static int countEq(const int* v, const bool* in, int n, int x) { int c = 0; for (int i = 0; i < n; i++) if (in[i]) c += v[i] == x; return c; }
static void checkNext(const MinMaxHeap<int>& h, const int* v, const bool* in, int n, int cnt) {
  if (cnt < 2) return;
  int nt = h.nextTop(), nb = h.nextBottom();
  rs_observe("nextTop", (uint32_t)nt); rs_observe("nextBottom", (uint32_t)nb);
  // x is the second smallest iff #less(x) <= 1 < #less(x) + #equal(x)
  int l = countLess(v, in, n, nt), e = countEq(v, in, n, nt);
  rs_check((l <= 1) & (l + e > 1), "nextTop is the second minimum");
  l = countGreater(v, in, n, nb); e = countEq(v, in, n, nb);
  rs_check((l <= 1) & (l + e > 1), "nextBottom is the second maximum");
}
// pushes n arbitrary values, then pops from both ends in any order (as decided by `seq` bits)
RS_ENTRY(heap) {
  int n = (int)rs_param("n", 4), seq = (int)rs_param("seq", 0), pops = (int)rs_param("pops", n), late = (int)rs_param("late", 0);
  int v[8]; bool in[8];
  MinMaxHeap<int> h;
  int cnt = 0;
  for (int i = 0; i < n; i++) { v[i] = rs_i32("v"); h.push(v[i]); in[i] = true; cnt++; if (i + 1 == n || late) checkHeap(h, v, in, i + 1, cnt); }
  checkNext(h, v, in, n, cnt);
  for (int k = 0; k < pops; k++) {
    // identify a removed value: the multiset minus the removed element
    bool bottom = (seq >> k) & 1;
    int x = bottom ? h.bottom() : h.top();
    rs_observe("x", (uint32_t)x);
    int r = -1;
    for (int i = 0; i < n; i++) if (in[i] && r < 0 && v[i] == x) r = i;
    rs_check(r >= 0, "the extreme value has been inserted");
    if (r < 0) return;
    if (bottom) h.popBottom(); else h.popTop();
    in[r] = false; cnt--;
    checkHeap(h, v, in, n, cnt);
    checkNext(h, v, in, n, cnt);
  }
  // the remaining items are exactly the remaining values
  int m = 0;
  for (auto it = h.begin(); it != h.end(); ++it) {
    int a = 0;
    for (auto jt = h.begin(); jt != h.end(); ++jt) a += *jt == *it;
    rs_check(a == countEq(v, in, n, *it), "the heap stores the pushed values that have not been popped");
    m++;
  }
  rs_check(m == cnt, "iteration covers the heap");
}

// One operation from an arbitrary valid heap of n items.  Pushing the values of a
// min-max heap in array order rebuilds that heap, so every heap state is reached.
static int lvl(int i) { int n = 0; while (i > 0) { i = (i - 1) / 2; n++; } return n; }
template <typename C> static bool heapOrder(const C& v, int n) {
  bool ok = true;
  for (int i = 1; i < n; i++) {
    bool onMin = lvl(i) % 2 == 0;
    int p = (i - 1) / 2, g = (p - 1) / 2;
    ok = ok & (onMin ? v[i] <= v[p] : v[i] >= v[p]);
    if (i > 2) ok = ok & (onMin ? v[i] >= v[g] : v[i] <= v[g]);
  }
  return ok;
}
RS_ENTRY(heap_step) {
  int n = (int)rs_param("n", 8), op = (int)rs_param("op", 0);
  int v[40]; bool in[40];
  // only the relative order of the values matters: 6 bits realise every order of up to 64 values
  const bool distinct = rs_param("distinct", 0) != 0;
  for (int i = 0; i < n; i++) { v[i] = (int)rs_int("v", 0, 63); in[i] = true; }
  rs_assume(heapOrder(v, n));
  if (distinct) { bool d = true; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) d = d & (v[i] != v[j]); rs_assume(d); }
  MinMaxHeap<int> h;
  for (int i = 0; i < n; i++) h.push(v[i]);
  int cnt = n;
  if (op == 2) { v[n] = (int)rs_int("v", 0, 63); in[n] = true; n++; cnt++; h.push(v[n - 1]); }
  else {
    int x = op ? h.bottom() : h.top(), r = -1;
    // concretely identified by the order: the root or the larger of its children
    for (int i = 0; i < 3 && i < n; i++) if (r < 0 && v[i] == x) r = i;
    rs_check(r >= 0, "the extreme value is one of the stored values");
    if (r < 0) return;
    if (op) h.popBottom(); else h.popTop();
    in[r] = false; cnt--;
  }
  checkHeap(h, v, in, n, cnt);
  checkNext(h, v, in, n, cnt);
  std::vector<int> a(h.begin(), h.end());
  rs_check((int)a.size() == cnt, "iteration covers the heap");
  bool same = true;
  for (int i = 0; i < cnt; i++) { int c = 0; for (int j = 0; j < cnt; j++) c += a[j] == a[i]; same = same & (c == countEq(v, in, n, a[i])); }
  rs_check(same, "the heap stores the pushed values that have not been popped");
  rs_observe("a0", a.empty() ? 0 : a[0]);
  if (heapOrder(a, cnt)) return;
  // not in the usual layout: decide by what is observed next
  bool fromBottom = rs_choose("end", 2) == 1;
  while (!h.empty()) {
    int x = fromBottom ? h.bottom() : h.top(), r = -1;
    for (int i = 0; i < n; i++) if (in[i] && r < 0 && v[i] == x) r = i;
    rs_check(r >= 0, "the extreme value is one of the stored values");
    if (r < 0) return;
    if (fromBottom) h.popBottom(); else h.popTop();
    in[r] = false; cnt--;
    checkHeap(h, v, in, n, cnt);
    checkNext(h, v, in, n, cnt);
  }
}
