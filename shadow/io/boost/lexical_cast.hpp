// Model of boost::lexical_cast from std::string for the types used.
#pragma once
#include <string>
#include <typeinfo>
#include <type_traits>
#include "../rsio.h"
namespace boost {
struct bad_lexical_cast : public std::bad_cast {};
template <typename T> struct rs_lex {
  static_assert(std::is_integral<T>::value, "lexical_cast model: integral types and strings only");
  static T get(const std::string& s) {
    size_t n = s.size(), i = 0;
    bool neg = false;
    if (n && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; i = 1; }
    if (i == n) throw bad_lexical_cast();
    unsigned long long r = 0, lim = neg && std::is_signed<T>::value ? 0ull - (unsigned long long)(long long)std::numeric_limits<T>::min() : (unsigned long long)std::numeric_limits<T>::max();
    for (; i < n; i++) {
      unsigned d = (unsigned char)(s[i] - '0');
      if (d > 9) throw bad_lexical_cast();
      if (r > (lim - d) / 10) throw bad_lexical_cast();
      r = r * 10 + d;
    }
    return (T)(neg ? 0ull - r : r);
  }
};
template <> struct rs_lex<std::string> { static std::string get(const std::string& s) { return s; } };
template <> struct rs_lex<bool> {
  static bool get(const std::string& s) { int v = rs_lex<int>::get(s); if (v != 0 && v != 1) throw bad_lexical_cast(); return v; }
};
template <> struct rs_lex<char> {
  static char get(const std::string& s) { if (s.size() != 1) throw bad_lexical_cast(); return s[0]; }
};
template <typename T> T lexical_cast(const std::string& s) { return rs_lex<T>::get(s); }
}  // namespace boost
