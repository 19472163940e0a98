// Model of the stream buffer iterators: they read and write the modelled stream itself.
#pragma once
#include <bits/stl_iterator.h>
#include "../rsio.h"
namespace std {
template <typename C, typename T> class istreambuf_iterator {
  basic_istream<C, T>* s_ = nullptr;
 public:
  typedef input_iterator_tag iterator_category;
  typedef C value_type;
  typedef ptrdiff_t difference_type;
  typedef C* pointer;
  typedef C reference;
  istreambuf_iterator() {}
  istreambuf_iterator(basic_istream<C, T>& s) : s_(&s) {}
  bool rsend() const { return !s_ || s_->peek() < 0; }
  C operator*() const { return (C)s_->peek(); }
  istreambuf_iterator& operator++() { s_->get1(); return *this; }
  struct rsproxy { C c; C operator*() const { return c; } };
  rsproxy operator++(int) { rsproxy p{**this}; s_->get1(); return p; }
  bool equal(const istreambuf_iterator& o) const { return rsend() == o.rsend(); }
};
template <typename C, typename T> bool operator==(const istreambuf_iterator<C, T>& a, const istreambuf_iterator<C, T>& b) { return a.equal(b); }
template <typename C, typename T> bool operator!=(const istreambuf_iterator<C, T>& a, const istreambuf_iterator<C, T>& b) { return !a.equal(b); }
template <typename C, typename T> class ostreambuf_iterator {
  basic_ostream<C, T>* s_;
 public:
  typedef output_iterator_tag iterator_category;
  typedef void value_type;
  typedef ptrdiff_t difference_type;
  typedef void pointer;
  typedef void reference;
  ostreambuf_iterator(basic_ostream<C, T>& s) : s_(&s) {}
  ostreambuf_iterator& operator=(C c) { s_->put(c); return *this; }
  ostreambuf_iterator& operator*() { return *this; }
  ostreambuf_iterator& operator++() { return *this; }
  ostreambuf_iterator& operator++(int) { return *this; }
};
}
