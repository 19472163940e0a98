// C10 box algebra and raster order, C11 boustrophedon order, C12 Grid storage, C13 peak finder.
#include "rs.h"
#include <rofl/common/interval_indices.h>
#include <rofl/common/grid.h>
#include <rofl/common/peak_finder_d.h>
#include <array>
#include <functional>
#include <iterator>
#include <vector>
using namespace rofl;

static const int L = 1 << 20;
template <size_t D> using Ind = std::array<int, D>;
template <size_t D> static Ind<D> anyIdx(const char* n, int lo, int hi) {
  Ind<D> r;
  for (size_t d = 0; d < D; d++) r[d] = (int)rs_int(n, lo, hi);
  return r;
}
// dimensions fixed by the driver (param dims: decimal digits, least significant = dimension 0)
template <size_t D> static Ind<D> paramDims() {
  Ind<D> r;
  int64_t p = rs_param("dims", 111);
  for (size_t d = 0; d < D; d++) { r[d] = (int)(p % 10); p /= 10; }
  return r;
}
template <size_t D> static bool in(const Ind<D>& p, const Ind<D>& mn, const Ind<D>& dim) {
  bool r = true;
  for (size_t d = 0; d < D; d++) r = r & (p[d] >= mn[d]) & ((int64_t)p[d] < (int64_t)mn[d] + dim[d]);
  return r;
}
template <size_t D> static bool eq(const Ind<D>& a, const Ind<D>& b) {
  bool r = true;
  for (size_t d = 0; d < D; d++) r = r & (a[d] == b[d]);
  return r;
}

// ---------------------------------------------------------------- C10: box algebra (all coordinates symbolic)
template <size_t D> static void boxAlgebra() {
  using Box = IntervalIndices<D, int>;
  int op = (int)rs_param("op", 0);
  Ind<D> m1 = anyIdx<D>("m", -L, L), d1 = anyIdx<D>("d", -2, L), p = anyIdx<D>("p", -4 * L, 4 * L);
  Box a(m1, d1);
  bool ia = in<D>(p, m1, d1);
  if (op == 0) {
    Box e;
    rs_check(a.inside(p) == ia, "inside: exactly the indices from min to min + dimension - 1");
    bool anyEmpty = false;
    for (size_t d = 0; d < D; d++) anyEmpty = anyEmpty | (d1[d] <= 0);
    rs_check(a.empty() == anyEmpty, "empty: no cell inside");
    rs_check(e.empty() & !e.inside(p), "the default interval is empty");
    rs_check(eq<D>(a.min(), m1) & eq<D>(a.first(), m1) & eq<D>(a.dimensions(), d1), "accessors");
    Ind<D> mx = a.max(), ls = a.last();
    for (size_t d = 0; d < D; d++) rs_check((mx[d] == m1[d] + d1[d] - 1) & (ls[d] == m1[d] + d1[d]) & (a.dimension(d) == d1[d]), "max and last");
    Box k = a.clone();
    rs_check(k.inside(p) == ia, "clone");
    k.initBounds(d1, m1);
    rs_check(k.inside(p) == in<D>(p, d1, m1), "bounds");
  } else if (op == 1) {
    Ind<D> m2 = anyIdx<D>("m", -L, L), d2 = anyIdx<D>("d", -2, L);
    Box b(m2, d2);
    bool ib = in<D>(p, m2, d2);
    Box c = a.intersect(b);
    bool ic = c.inside(p);
    rs_check(ic == (ia & ib), "the intersection contains exactly the common cells");
    rs_observe("c", ic);
    bool neg = false;
    for (size_t d = 0; d < D; d++) neg = neg | ((c.dimensions()[d] < 0) & (d1[d] >= 0) & (d2[d] >= 0));
    rs_check(!neg, "an intersection has no negative size");
  } else if (op == 2) {
    Ind<D> w = anyIdx<D>("w", 0, L);
    Box f;
    f.initCentered(m1, w);
    bool inw = true;
    for (size_t d = 0; d < D; d++) inw = inw & (p[d] - m1[d] <= w[d]) & (m1[d] - p[d] <= w[d]);
    rs_check(f.inside(p) == inw, "a centered interval contains the cells at distance at most the half size");
  } else if (op == 3) {
    Ind<D> m2 = anyIdx<D>("m", -L, L);
    Box g;
    g.initMinMax(m1, m2);
    bool inm = true;
    for (size_t d = 0; d < D; d++) inm = inm & (p[d] >= m1[d]) & (p[d] <= m2[d]);
    rs_check(g.inside(p) == inm, "a min-max interval contains the cells from min to max included");
  } else {
    Ind<D> t = anyIdx<D>("t", -L, L), q;
    Box h = a.clone();
    h.translate(t);
    for (size_t d = 0; d < D; d++) q[d] = p[d] - t[d];
    rs_check(h.inside(p) == in<D>(q, m1, d1), "translation moves every cell");
  }
}
RS_ENTRY(box_1) { boxAlgebra<1>(); }
RS_ENTRY(box_2) { boxAlgebra<2>(); }
RS_ENTRY(box_3) { boxAlgebra<3>(); }
template <size_t D> static void boxStack() {
  using Box = IntervalIndices<D, int>;
  Ind<D> m1 = anyIdx<D>("m", -L, L), d1 = anyIdx<D>("d", 0, L), p = anyIdx<D>("p", -4 * L, 4 * L);
  int k = rs_choose("k", D), incr = (int)rs_int("incr", -L, L);
  Box a(m1, d1), s = a.stacked(k, incr);
  bool r = true;
  for (size_t d = 0; d < D; d++) if ((int)d != k) r = r & (p[d] >= m1[d]) & (p[d] < m1[d] + d1[d]);
  int lo = (int)rs_ite(incr >= 0, (uint32_t)(m1[k] + d1[k]), (uint32_t)(m1[k] + incr)), n = (int)rs_ite(incr >= 0, (uint32_t)incr, (uint32_t)-incr);
  rs_check(s.inside(p) == (r & (p[k] >= lo) & (p[k] < lo + n)), "stacked: the slab adjacent to the interval with the given thickness and side");
  rs_observe("s", s.inside(p));
  Box h = a.clone();
  h.translate(k, incr);
  Ind<D> q = p;
  q[k] = p[k] - incr;
  rs_check(h.inside(p) == in<D>(q, m1, d1), "translation along one dimension");
}
RS_ENTRY(stack_1) { boxStack<1>(); }
RS_ENTRY(stack_2) { boxStack<2>(); }
RS_ENTRY(stack_3) { boxStack<3>(); }
// ---------------------------------------------------------------- C10: raster order
template <size_t D> static int volume(const Ind<D>& d) { int s = 1; for (size_t k = 0; k < D; k++) s *= d[k]; return s; }
template <size_t D> static void rasterOrder() {
  using Box = IntervalIndices<D, int>;
  Ind<D> mn = anyIdx<D>("m", -L, L), dim = paramDims<D>();
  int n = volume<D>(dim);
  Box a(mn, dim);
  rs_check(a.size() == (size_t)n, "size is the number of cells");
  if (n > 0) {
    int pos = (int)rs_int("pos", 0, n - 1);
    Ind<D> i = detail::RasterIndexer<D, int>::getIndices(mn, dim, pos), j;
    j.fill(0);
    detail::StaticRasterIndexer<D, int>::getIndices(pos, mn.data(), dim.data(), j.data());
    rs_check(in<D>(i, mn, dim), "a position maps to a cell of the interval");
    rs_check(eq<D>(i, j), "both raster indexers map a position to the same cell");
    rs_check(detail::RasterIndexer<D, int>::getPos(mn, dim, i) == pos, "position of the cell of a position");
    rs_check(detail::StaticRasterIndexer<D, int>::getPos(mn.data(), dim.data(), i.data()) == pos, "position of the cell of a position (static)");
    Ind<D> c;
    int stride = 1, want = 0;
    for (size_t d = 0; d < D; d++) { int o = (int)rs_int("o", 0, dim[d] - 1); c[d] = mn[d] + o; want += o * stride; stride *= dim[d]; }
    int pc = detail::RasterIndexer<D, int>::getPos(mn, dim, c);
    rs_observe("pc", pc);
    rs_check(pc == want, "raster order: dimension 0 varies fastest");
    rs_check(detail::StaticRasterIndexer<D, int>::getPos(mn.data(), dim.data(), c.data()) == want, "raster order: dimension 0 varies fastest (static)");
    rs_check(eq<D>(detail::RasterIndexer<D, int>::getIndices(mn, dim, pc), c), "cell of the position of a cell");
  }
  // iteration covers the interval once, in raster order, and ends
  int k = 0;
  auto it = a.beginRaster();
  Ind<D> cur = mn;
  for (; it != a.endRaster() && k <= n; ++it, ++k) {
    rs_check(eq<D>(*it, cur), "raster iteration visits the next cell");
    const Ind<D>* ptr = it.operator->();
    rs_check((*ptr)[0] == cur[0], "operator-> refers to the visited cell");
    for (size_t d = 0; d < D; d++) { cur[d]++; if (cur[d] < mn[d] + dim[d]) break; cur[d] = mn[d]; }
  }
  rs_check(k == n, "iteration visits every cell once");
  if (n > 1) {
    auto u = a.beginRaster();
    auto v = u++;
    rs_check(v == a.beginRaster() && u != v && eq<D>(*v, mn), "post-increment returns the previous position");
    Ind<D> second = *u;
    auto w = u--;
    rs_check(u == v && eq<D>(*u, mn) && eq<D>(*w, second), "post-decrement");
    ++u;
    rs_check(eq<D>(*u, second), "increment after decrement");
    --u;
    rs_check(eq<D>(*u, mn), "decrement returns to the previous cell");
  }
}
RS_ENTRY(raster_1) { rasterOrder<1>(); }
RS_ENTRY(raster_2) { rasterOrder<2>(); }
RS_ENTRY(raster_3) { rasterOrder<3>(); }
RS_ENTRY(raster_4) { rasterOrder<4>(); }
// ---------------------------------------------------------------- C11
template <size_t D> static int dist1(const Ind<D>& a, const Ind<D>& b) {
  int s = 0;
  for (size_t d = 0; d < D; d++) s += (int)rs_ite(a[d] > b[d], (uint32_t)(a[d] - b[d]), (uint32_t)(b[d] - a[d]));
  return s;
}
template <size_t D> static void zigzag() {
  using Box = IntervalIndices<D, int>;
  using Bst = detail::BoustrophedonIndexer<D, int>;
  Ind<D> mn = anyIdx<D>("m", -L, L), dim = paramDims<D>();
  int n = volume<D>(dim);
  Box a(mn, dim);
  if (n > 0) {
    int p = (int)rs_int("p", 0, n - 1), q = (int)rs_int("q", 0, n - 1);
    Ind<D> i = Bst::getIndices(mn, dim, p), j = Bst::getIndices(mn, dim, q);
    rs_check(in<D>(i, mn, dim), "a position maps to a cell of the interval");
    rs_check((p == q) == eq<D>(i, j), "different positions are different cells");
    rs_check((q != p + 1) | (dist1<D>(i, j) == 1), "consecutive positions are adjacent cells");
    rs_check((p != 0) | eq<D>(i, mn), "the visit starts from the min corner");
    // lines of dimension 0 are scanned in alternate directions
    rs_check((p >= dim[0]) | (i[0] == mn[0] + p), "the first line is scanned forward");
    // the last dimension never goes back
    rs_check((p > q) | (i[D - 1] <= j[D - 1]), "the outermost dimension is visited once");
    rs_observe("i0", (uint32_t)i[0]);
  }
  int k = 0;
  Ind<D> prev = mn;
  auto it = a.beginBoustrophedon();
  for (; it != a.endBoustrophedon() && k <= n; ++it, ++k) {
    Ind<D> c = *it;
    rs_check(in<D>(c, mn, dim), "iteration stays inside");
    if (k) rs_check(dist1<D>(c, prev) == 1, "iteration moves to an adjacent cell");
    rs_check(eq<D>(c, Bst::getIndices(mn, dim, k)), "iterator and indexer agree");
    prev = c;
  }
  rs_check(k == n, "iteration visits every cell once");
  for (; k > 1; --k) { --it; rs_check(eq<D>(*it, Bst::getIndices(mn, dim, k - 1)), "backward iteration is the reverse visit"); }
}
RS_ENTRY(zigzag_1) { zigzag<1>(); }
RS_ENTRY(zigzag_2) { zigzag<2>(); }
RS_ENTRY(zigzag_3) { zigzag<3>(); }
RS_ENTRY(zigzag_4) { zigzag<4>(); }
// ---------------------------------------------------------------- C12
template <size_t D> static void gridStore() {
  using G = Grid<D, int>;
  Ind<D> dim = paramDims<D>(), mn = anyIdx<D>("m", -L, L), mx;
  int mode = (int)rs_param("mode", 0), n = volume<D>(dim);
  if (mode == 4) for (size_t d = 0; d < D; d++) dim[d] |= 1;  // centered grids have odd sizes
  n = volume<D>(dim);
  if (mode == 1 || mode == 2) mn.fill(0);
  G g0, g1(mn, dim), g2(dim);
  G* g = &g0;
  if (mode == 0) g = &g1;
  else if (mode == 1) g = &g2;
  else if (mode == 2) g0.initBounds(dim);
  else if (mode == 3) g0.initBounds(mn, dim);
  else if (mode == 4) {
    Ind<D> c, w;
    for (size_t d = 0; d < D; d++) { w[d] = dim[d] / 2; c[d] = mn[d] + w[d]; }
    g0.initCenter(c, w);
  } else {
    for (size_t d = 0; d < D; d++) mx[d] = mn[d] + dim[d] - 1;
    g0.initMinMax(mn, mx);
  }
  rs_check(g->size() == (size_t)n && eq<D>(g->dimensions(), dim), "a grid has one value per cell of its domain");
  Ind<D> p = anyIdx<D>("p", -3 * L, 3 * L);
  rs_check(g->inside(p) == in<D>(p, mn, dim), "inside the domain");
  if (n == 0) return;
  int base = rs_i32("base"), x = rs_i32("x"), y = rs_i32("y"), z = rs_i32("z");
  g->fill(base);
  Ind<D> a, b, c;
  for (size_t d = 0; d < D; d++) {
    a[d] = mn[d] + (int)rs_int("a", 0, dim[d] - 1); b[d] = mn[d] + (int)rs_int("b", 0, dim[d] - 1); c[d] = mn[d] + (int)rs_int("c", 0, dim[d] - 1);
  }
  g->value(a) = x;
  g->value(b.data()) = y;
  int want = (int)rs_ite(eq<D>(c, b), (uint32_t)y, rs_ite(eq<D>(c, a), (uint32_t)x, (uint32_t)base));
  const G& cg = *g;
  rs_observe("v", (uint32_t)cg.value(c));
  rs_check(cg.value(c) == want, "a cell holds the last value written to it and no other cell changes");
  rs_check(cg.value(c.data()) == want && g->value(c) == want, "all cell accessors agree");
  int pos = g->getPos(c);
  rs_check((pos >= 0) & (pos < n), "position of a cell");
  rs_check(cg.value(pos) == want, "access by position and by indices refer to the same cell");
  rs_check(eq<D>(g->getIndices(pos), c), "indices of the position of a cell");
  g->value(pos) = z;
  rs_check(cg.value(c) == z, "writing by position");
  int others = (int)rs_ite(eq<D>(a, c), (uint32_t)z, rs_ite(eq<D>(a, b), (uint32_t)y, (uint32_t)x));
  rs_check(cg.value(a) == others, "writing by position changes only that cell");
}
RS_ENTRY(grid_1) { gridStore<1>(); }
RS_ENTRY(grid_2) { gridStore<2>(); }
RS_ENTRY(grid_3) { gridStore<3>(); }
// ---------------------------------------------------------------- C13
// mode 0: setDomain(size), 1: setDomain(min,max), 2: setDomainCentered
template <size_t D, typename Comp> static void peaks() {
  using PF = PeakFinderD<D, int, int, Comp>;
  Ind<D> dim = paramDims<D>(), mn, win;
  int mode = (int)rs_param("mode", 1);
  int64_t wp = rs_param("win", 1);
  for (size_t d = 0; d < D; d++) { win[d] = (int)(wp % 10); if (wp >= 10) wp /= 10; mn[d] = mode == 0 ? 0 : (int)rs_param("min", -1) + 2 * (int)d; }
  int n = volume<D>(dim);
  std::vector<int> val(n);
  for (int i = 0; i < n; i++) val[i] = (int)rs_int("v", -L, L);
  PF pf;
  if (mode == 0) pf.setDomain(dim);
  else if (mode == 1) { Ind<D> mx; for (size_t d = 0; d < D; d++) mx[d] = mn[d] + dim[d] - 1; pf.setDomain(mn, mx); }
  else { Ind<D> c, h; for (size_t d = 0; d < D; d++) { h[d] = dim[d] / 2; c[d] = mn[d] + h[d]; } pf.setDomainCentered(c, h); }
  pf.setPeakWindow(win);
  bool filter = rs_param("filter", 0) != 0;
  int thr = 0;
  if (filter) { thr = (int)rs_int("thr", -L, L); pf.enableFilterPeakMin(true, thr); }
  auto cell = [&](const Ind<D>& i) { int p = 0, s = 1; for (size_t d = 0; d < D; d++) { p += (i[d] - mn[d]) * s; s *= dim[d]; } return p; };
  auto map = [&](const Ind<D>& i) { int p = cell(i); rs_check(p >= 0 && p < n, "the map is read inside the domain only"); return val[p]; };
  std::vector<Ind<D> > out;
  pf.detect(map, std::back_inserter(out));
  Comp comp;
  std::vector<int> found(n, 0);
  bool sorted = true;
  for (size_t i = 0; i < out.size(); i++) {
    int p = cell(out[i]);
    rs_check(p >= 0 && p < n && !found[p], "each peak is reported once");
    if (p < 0 || p >= n) return;
    found[p] = 1;
    if (i) sorted = sorted & !comp(val[p], val[cell(out[i - 1])]);
  }
  rs_check(sorted, "peaks are reported from the best one");
  rs_observe("peaks", out.size());
  bool ok = true;
  Ind<D> a, b;
  for (int p = 0; p < n; p++) {
    int r = p;
    for (size_t d = 0; d < D; d++) { a[d] = r % dim[d]; r /= dim[d]; }
    bool best = true;
    for (int q = 0; q < n; q++) {
      if (q == p) continue;
      int s = q;
      bool near = true;
      for (size_t d = 0; d < D; d++) { b[d] = s % dim[d]; s /= dim[d]; near = near && b[d] - a[d] <= win[d] && a[d] - b[d] <= win[d]; }
      if (near) best = best & comp(val[p], val[q]);
    }
    if (filter) best = best & comp(val[p], thr);
    ok = ok & (best == (found[p] != 0));
  }
  rs_check(ok, "the peaks are exactly the cells strictly better than the other cells of their window and than the threshold");
}
RS_ENTRY(peaks_1) { peaks<1, std::greater<int> >(); }
RS_ENTRY(peaks_2) { peaks<2, std::greater<int> >(); }
RS_ENTRY(peaks_3) { peaks<3, std::greater<int> >(); }
RS_ENTRY(peaks_less_1) { peaks<1, std::less<int> >(); }
RS_ENTRY(peaks_less_2) { peaks<2, std::less<int> >(); }
