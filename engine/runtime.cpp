// IR models of the compiled parts of libstdc++/libc that the code needs.
// Linked only into the symbolic side; natively the real library is used.
#include <bits/stl_tree.h>
#include <cstddef>
#include <list>
#include <cstdint>
#include <unordered_map>

namespace std _GLIBCXX_VISIBILITY(default) {
typedef _Rb_tree_node_base* NP;
typedef const _Rb_tree_node_base* CNP;

static NP inc_(NP x) throw() {
  if (x->_M_right != 0) {
    x = x->_M_right;
    while (x->_M_left != 0) x = x->_M_left;
  } else {
    NP y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static NP dec_(NP x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left != 0) {
    NP y = x->_M_left;
    while (y->_M_right != 0) y = y->_M_right;
    x = y;
  } else {
    NP y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    x = y;
  }
  return x;
}
NP _Rb_tree_increment(NP x) throw() { return inc_(x); }
CNP _Rb_tree_increment(CNP x) throw() { return inc_(const_cast<NP>(x)); }
NP _Rb_tree_decrement(NP x) throw() { return dec_(x); }
CNP _Rb_tree_decrement(CNP x) throw() { return dec_(const_cast<NP>(x)); }

static void rotl(NP const x, NP& root) {
  NP const y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left != 0) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  y->_M_left = x;
  x->_M_parent = y;
}
static void rotr(NP const x, NP& root) {
  NP const y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right != 0) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
  else x->_M_parent->_M_left = y;
  y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, NP x, NP p, _Rb_tree_node_base& header) throw() {
  NP& root = header._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &header) { header._M_parent = x; header._M_right = x; }
    else if (p == header._M_left) header._M_left = x;
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    NP const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      NP const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;
      } else {
        if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
        x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root);
      }
    } else {
      NP const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;
      } else {
        if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
        x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root);
      }
    }
  }
  root->_M_color = _S_black;
}
NP _Rb_tree_rebalance_for_erase(NP const z, _Rb_tree_node_base& header) throw() {
  NP& root = header._M_parent; NP& leftmost = header._M_left; NP& rightmost = header._M_right;
  NP y = z; NP x = 0; NP xp = 0;
  if (y->_M_left == 0) x = y->_M_right;
  else if (y->_M_right == 0) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left != 0) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    } else xp = y;
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    _Rb_tree_color t = y->_M_color; y->_M_color = z->_M_color; z->_M_color = t;
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (leftmost == z) {
      if (z->_M_right == 0) leftmost = z->_M_parent;
      else leftmost = _Rb_tree_node_base::_S_minimum(x);
    }
    if (rightmost == z) {
      if (z->_M_left == 0) rightmost = z->_M_parent;
      else rightmost = _Rb_tree_node_base::_S_maximum(x);
    }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        NP w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_right) w->_M_right->_M_color = _S_black;
          rotl(xp, root); break;
        }
      } else {
        NP w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_left) w->_M_left->_M_color = _S_black;
          rotr(xp, root); break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = this->_M_next; _List_node_base* const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base* const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
  }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033};
  size_t r = 28411;
  for (int i = 12; i >= 0; i--) if (pr[i] >= n) r = pr[i];
  _M_next_resize = r;
  return r;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    size_t mn = ne + ni; if (_M_next_resize == 0 && mn < 11) mn = 11;
    if (mn >= nb) return {true, _M_next_bkt(mn + 1)};
    _M_next_resize = nb;
  }
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  size_t h = seed ^ 1469598103934665603ull;
  for (size_t i = 0; i < n; i++) { h ^= ((const unsigned char*)p)[i]; h *= 1099511628211ull; }
  return h;
}
}  // namespace std

extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int memcmp(const void* a, const void* b, size_t n) {
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return (int)x[i] - (int)y[i];
  return 0;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* memchr(const void* a, int c, size_t n) {
  const unsigned char* x = (const unsigned char*)a;
  for (size_t i = 0; i < n; ++i) if (x[i] == (unsigned char)c) return (void*)(x + i);
  return nullptr;
}
int strcmp(const char* a, const char* b) {
  while (*a && *a == *b) { ++a; ++b; }
  return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; ++i) { if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; if (!a[i]) return 0; }
  return 0;
}
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
}
extern "C" int abs(int x) { int m = x >> 31; return (x ^ m) - m; }
extern "C" long labs(long x) { long m = x >> 63; return (x ^ m) - m; }
extern "C" long long llabs(long long x) { long long m = x >> 63; return (x ^ m) - m; }
