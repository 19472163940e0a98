// Memory objects: bytes with concrete / symbolic / uninitialised state.
#pragma once
#include "val.h"
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>

struct Unsupported { std::string msg; };
struct Violation { std::string kind, msg; };
struct PathEnd { std::string why; };

extern z3::context* Z;

inline Val mkBV(const z3::expr& e) {
  unsigned w = e.get_sort().bv_size();
  if (w <= 64 && e.is_numeral()) {
    uint64_t u; if (e.is_numeral_u64(u)) return Val::mk(u, w);
  }
  return Val::node(Val::BV, w, e);
}
inline Val mkBool(const z3::expr& e) {
  if (e.is_true()) return Val::mk(1, 1);
  if (e.is_false()) return Val::mk(0, 1);
  return Val::node(Val::Bool, 1, e);
}
inline z3::sort fpSort(unsigned w) { return w == 32 ? Z->fpa_sort(8, 24) : w == 64 ? Z->fpa_sort(11, 53) : Z->fpa_sort(5, 11); }
inline Val mkFP(const z3::expr& e) {
  z3::sort s = e.get_sort();
  return Val::node(Val::FP, s.fpa_ebits() + s.fpa_sbits(), e);
}
inline Val mkFPN(const z3::expr& n32) {  // double with the value of the float whose bits are n32
  z3::expr f(*Z, Z3_mk_fpa_to_fp_bv(*Z, n32, fpSort(32)));
  Val v = mkFP(z3::expr(*Z, Z3_mk_fpa_to_fp_float(*Z, z3::expr(*Z, Z3_mk_fpa_rne(*Z)), f, fpSort(64))));
  v.p->hasN = true; v.p->n = n32;
  return v;
}
inline bool hasN(const Val& v) {
  if (v.k == Val::FP) return v.p->hasN;
  if (v.k == Val::Conc && v.w == 64) { double d = asD(v.c); return !std::isnan(d) && (double)(float)d == d; }
  return false;
}
inline z3::expr narrow(const Val& v) { return v.k == Val::Conc ? Z->bv_val((uint64_t)bitsF((float)asD(v.c)), 32) : v.p->n; }
inline z3::expr toBV(const Val& v) {
  switch (v.k) {
    case Val::Conc: return Z->bv_val((uint64_t)v.c, v.w);
    case Val::BV: return v.p->e;
    case Val::Bool:
      if (v.p->hasF) throw Unsupported{"inexact bool used as data"};
      return z3::ite(v.p->e, Z->bv_val(1, 1), Z->bv_val(0, 1));
    case Val::FP: return z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, v.p->e));
    case Val::Real: throw Unsupported{"bits of a real-mode value"};
    default: throw Unsupported{"toBV of aggregate"};
  }
}
inline z3::expr toFP(const Val& v, unsigned w) {
  switch (v.k) {
    case Val::Conc: case Val::BV: {
      z3::expr b = toBV(v);
      return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, b, fpSort(w)));
    }
    case Val::FP: return v.p->e;
    default: throw Unsupported{"toFP"};
  }
}
inline z3::expr toBool(const Val& v) {
  switch (v.k) {
    case Val::Conc: return Z->bool_val(v.c & 1);
    case Val::Bool: return v.p->e;
    case Val::BV: return v.p->e == Z->bv_val(1, v.w);
    default: throw Unsupported{"toBool"};
  }
}
inline z3::expr exF(const Val& v) {  // necessary condition for "false"
  if (v.k == Val::Bool && v.p->hasF) return v.p->f;
  return !toBool(v);
}

struct Obj {
  uint64_t base = 0, size = 0;
  char kind = 'g';  // g global, h heap, s stack
  bool ro = false, isArray = false;
  std::string name;
  std::vector<uint8_t> b, st;
  std::map<uint32_t, Val> cells;
  Obj(uint64_t base, uint64_t size, char kind, bool zero, std::string name = "")
      : base(base), size(size), kind(kind), name(name), b(size, 0), st(size, zero ? 1 : 0) {}

  Val byteOf(uint32_t off) {
    if (st[off] == 1) return Val::mk(b[off], 8);
    if (st[off] == 0) return Val();
    auto it = cells.upper_bound(off); --it;
    unsigned k = off - it->first;
    const Val& v = it->second;
    if (v.w == 8) return v;
    z3::expr e = toBV(v);
    return mkBV(e.extract(8 * k + 7, 8 * k));
  }
  void split(uint32_t off, uint32_t n) {
    if (cells.empty()) return;
    auto it = cells.upper_bound(off);
    if (it != cells.begin()) --it;
    while (it != cells.end() && it->first < off + n) {
      uint32_t s = it->first, len = it->second.w / 8;
      if (s + len <= off) { ++it; continue; }
      Val v = it->second;
      it = cells.erase(it);
      if (s >= off && s + len <= off + n) continue;
      if (v.k == Val::Real) throw Unsupported{"partial overwrite of a real-mode value"};
      z3::expr e = toBV(v);
      for (uint32_t i = 0; i < len; i++) {
        uint32_t o = s + i;
        if (o >= off && o < off + n) continue;
        Val bv = mkBV(e.extract(8 * i + 7, 8 * i));
        if (bv.conc()) { b[o] = bv.c; st[o] = 1; }
        else { cells[o] = bv; st[o] = 2; }
      }
      it = cells.upper_bound(s);
    }
  }
  void store(uint32_t off, const Val& v0) {
    Val v = v0;
    if (v.w % 8) {
      unsigned nw = (v.w + 7) / 8 * 8;
      if (v.conc()) v = Val::mk(v.c, nw);
      else if (v.k == Val::Bool) {
        if (v.p->hasF) throw Unsupported{"store inexact bool"};
        Val r = Val::node(Val::BV, nw, z3::ite(v.p->e, Z->bv_val(1, nw), Z->bv_val(0, nw)));
        r.p->hasB = true; r.p->b = v.p->e; v = r;
      } else v = mkBV(z3::zext(toBV(v), nw - v.w));
    } else if (v.k == Val::Bool) throw Unsupported{"bool width"};
    uint32_t n = v.w / 8;
    split(off, n);
    if (v.conc()) {
      for (uint32_t i = 0; i < n; i++) { b[off + i] = (uint8_t)(v.c >> (8 * i)); st[off + i] = 1; }
    } else {
      cells[off] = v;
      for (uint32_t i = 0; i < n; i++) st[off + i] = 2;
    }
  }
  static unsigned& freshCnt() { static unsigned c = 0; return c; }
  Val load(uint32_t off, uint32_t n, unsigned w) {
    bool allc = true, anyc2 = false, alluninit = true;
    for (uint32_t i = 0; i < n; i++) {
      if (st[off + i] != 1) allc = false;
      if (st[off + i] == 2) anyc2 = true;
      if (st[off + i] != 0) alluninit = false;
    }
    (void)anyc2;
    if (allc && n <= 8) {
      uint64_t c = 0;
      for (uint32_t i = 0; i < n; i++) c |= (uint64_t)b[off + i] << (8 * i);
      return Val::mk(c, w);
    }
    Val r;
    auto it = cells.find(off);
    if (st[off] == 2 && it != cells.end() && it->second.w == 8 * n) r = it->second;
    else if (alluninit) {
      std::string nm = "uninit!" + std::to_string(freshCnt()++);
      r = mkBV(Z->bv_const(nm.c_str(), 8 * n));
      store(off, r);
    } else {
      z3::expr e(*Z); bool first = true;
      for (int i = (int)n - 1; i >= 0; i--) {
        if (st[off + i] == 0) {
          std::string nm = "uninit!" + std::to_string(freshCnt()++);
          store(off + i, mkBV(Z->bv_const(nm.c_str(), 8)));
        }
        z3::expr be = toBV(byteOf(off + i));
        if (first) { e = be; first = false; } else e = z3::concat(e, be);
      }
      r = mkBV(e.simplify());
    }
    if (r.w != w) {
      if (r.conc()) return Val::mk(r.c, w);
      if (w == 1) {
        if (r.p->hasB) return mkBool(r.p->b);
        return mkBool(toBV(r).extract(0, 0) == Z->bv_val(1, 1));
      }
      return mkBV(toBV(r).extract(w - 1, 0));
    }
    return r;
  }
};
