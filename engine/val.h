// Values: concrete machine words or z3 terms.
#pragma once
#include <z3++.h>
#include <cstdint>
#include <cmath>
#include <cstring>
#include <memory>
#include <vector>

struct Val;
struct Node {
  int rc = 0;
  z3::expr e;              // term (Bool / BV / FP / Real)
  bool hasF = false;       // inexact Bool: separate necessary condition for "false"
  z3::expr f;
  bool hasB = false;       // BV that is zext of a Bool
  z3::expr b;
  bool hasN = false;       // FP(64) that is the exact extension of the 32-bit pattern n
  z3::expr n;
  double err = 0, lo = 0, hi = 0;  // Real: |value - e| <= err ; lo <= e <= hi
  std::shared_ptr<std::vector<double>> tm;  // Real: coefficients of e as a polynomial of one normalised input
  int tv = -1;                              // which input
  std::vector<Val>* agg = nullptr;
  Node(const z3::expr& x) : e(x), f(x), b(x), n(x) {}
  ~Node();
};

struct Val {
  enum K : uint8_t { None, Conc, Bool, BV, FP, Real, Agg };
  K k = None;
  uint16_t w = 0;
  uint64_t c = 0;
  Node* p = nullptr;
  Val() {}
  Val(const Val& o) : k(o.k), w(o.w), c(o.c), p(o.p) { if (p) ++p->rc; }
  Val(Val&& o) noexcept : k(o.k), w(o.w), c(o.c), p(o.p) { o.p = nullptr; o.k = None; }
  Val& operator=(const Val& o) {
    if (o.p) ++o.p->rc;
    rel();
    k = o.k; w = o.w; c = o.c; p = o.p;
    return *this;
  }
  Val& operator=(Val&& o) noexcept {
    if (this != &o) { rel(); k = o.k; w = o.w; c = o.c; p = o.p; o.p = nullptr; o.k = None; }
    return *this;
  }
  ~Val() { rel(); }
  void rel() { if (p && --p->rc == 0) delete p; p = nullptr; }
  bool conc() const { return k == Conc; }
  static Val mk(uint64_t c, unsigned w) {
    Val v; v.k = Conc; v.w = (uint16_t)w;
    v.c = w >= 64 ? c : (c & ((1ULL << w) - 1));
    return v;
  }
  static Val node(K k, unsigned w, const z3::expr& e) {
    Val v; v.k = k; v.w = (uint16_t)w; v.p = new Node(e); v.p->rc = 1; return v;
  }
};
inline Node::~Node() { delete agg; }

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t sextw(uint64_t c, unsigned w) {
  if (w >= 64) return (int64_t)c;
  uint64_t s = 1ULL << (w - 1);
  c &= maskw(w);
  return (int64_t)((c ^ s) - s);
}
inline double asD(uint64_t c) { double d; memcpy(&d, &c, 8); return d; }
inline float asF(uint64_t c) { uint32_t u = (uint32_t)c; float d; memcpy(&d, &u, 4); return d; }
inline uint64_t bitsD(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }
inline uint64_t bitsF(float d) { uint32_t c; memcpy(&c, &d, 4); return c; }
