// Minimal model of iostreams for the symbolic side: streams over a string
// buffer, a map of in-memory files, and a record of the numbers written.
// Sampled paths are replayed natively with the real library and compared.
#pragma once
#include <ctime>
#include <iosfwd>
#include <map>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
extern std::vector<double> rsio_numbers;
extern std::map<std::string, std::string> rsio_files;
namespace std {
typedef long streamoff_;
class ios_base {
 public:
  typedef unsigned fmtflags;
  typedef unsigned iostate;
  typedef unsigned openmode;
  typedef int seekdir;
  static constexpr fmtflags dec = 1, fixed = 2, hex = 4, left = 8, right = 16, scientific = 32, boolalpha = 64, showpoint = 128, showpos = 256, oct = 512, internal = 1024, skipws = 2048, floatfield = fixed | scientific, basefield = dec | hex | oct, adjustfield = left | right | internal;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  long precision() const { return prec_; }
  long precision(long p) { long o = prec_; prec_ = p; return o; }
  long width() const { return width_; }
  long width(long p) { long o = width_; width_ = p; return o; }
  fmtflags flags() const { return fl_; }
  fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
  void unsetf(fmtflags f) { fl_ &= ~f; }
  static bool sync_with_stdio(bool = true) { return true; }
  struct failure {};
 protected:
  long prec_ = 6, width_ = 0;
  fmtflags fl_ = dec | skipws;
};
template <typename C, typename T> class basic_ios : public ios_base {
 public:
  bool good() const { return st_ == 0; }
  bool eof() const { return st_ & eofbit; }
  bool fail() const { return st_ & (failbit | badbit); }
  bool bad() const { return st_ & badbit; }
  bool operator!() const { return fail(); }
  explicit operator bool() const { return !fail(); }
  iostate rdstate() const { return st_; }
  void setstate(iostate s) { st_ |= s; }
  void clear(iostate s = goodbit) { st_ = s; }
  C widen(char c) const { return (C)c; }
  char narrow(C c, char) const { return (char)c; }
  iostate exceptions() const { return 0; }
  void exceptions(iostate) {}
  basic_ios* rdbuf_() { return this; }
  C fill() const { return fill_; }
  C fill(C c) { C o = fill_; fill_ = c; return o; }
  void rsdiscard() { discard_ = true; }
  std::string& rsbuf() { return buf_; }
 protected:
  std::string buf_;
  size_t rp_ = 0;
  iostate st_ = 0;
  C fill_ = ' ';
  bool discard_ = false;
};
template <typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
  typedef basic_ostream O;
 public:
  typedef C char_type;
  basic_ostream() {}
  virtual ~basic_ostream() {}
  void rsput(const C* s, size_t n) {
    if (this->discard_ || this->fail()) return;
    long w = this->width_; this->width_ = 0;
    size_t pad = w > (long)n ? w - n : 0;
    if (pad && !(this->fl_ & ios_base::left)) this->buf_.append(pad, this->fill_);
    this->buf_.append(s, n);
    if (pad && (this->fl_ & ios_base::left)) this->buf_.append(pad, this->fill_);
  }
  O& put(C c) { if (!this->discard_) this->buf_.push_back(c); return *this; }
  O& write(const C* s, long n) { if (!this->discard_) this->buf_.append(s, n); return *this; }
  O& flush() { return *this; }
  long tellp() const { return this->fail() ? -1 : (long)this->buf_.size(); }
  O& operator<<(std::nullptr_t) { rsput("nullptr", 7); return *this; }
  template <typename I> O& rsint(I v, bool neg, unsigned long long u) {
    if (this->discard_) return *this;
    char b[24]; int p = 24;
    do { b[--p] = (char)('0' + u % 10); u /= 10; } while (u);
    if (neg) b[--p] = '-';
    rsput(b + p, 24 - p);
    return *this;
  }
  O& rsnum(double v) {
    if (this->discard_) return *this;
    rsio_numbers.push_back(v);
    rsput("#", 1);
    return *this;
  }
  O& operator<<(bool v) { C c = v ? '1' : '0'; rsput(&c, 1); return *this; }
  O& operator<<(short v) { return rsint(v, v < 0, v < 0 ? 0ull - (long long)v : (long long)v); }
  O& operator<<(int v) { return rsint(v, v < 0, v < 0 ? 0ull - (long long)v : (long long)v); }
  O& operator<<(long v) { return rsint(v, v < 0, v < 0 ? 0ull - (long long)v : (long long)v); }
  O& operator<<(long long v) { return rsint(v, v < 0, v < 0 ? 0ull - v : v); }
  O& operator<<(unsigned short v) { return rsint(v, false, v); }
  O& operator<<(unsigned v) { return rsint(v, false, v); }
  O& operator<<(unsigned long v) { return rsint(v, false, v); }
  O& operator<<(unsigned long long v) { return rsint(v, false, v); }
  O& operator<<(float v) { return rsnum(v); }
  O& operator<<(double v) { return rsnum(v); }
  O& operator<<(long double v) { return rsnum((double)v); }
  O& operator<<(const void*) { rsput("@", 1); return *this; }
  O& operator<<(O& (*f)(O&)) { return f(*this); }
  O& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  O& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
};
template <typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, C c) { o.rsput(&c, 1); return o; }
template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { char d = (char)c; o.rsput(&d, 1); return o; }
template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { char d = (char)c; o.rsput(&d, 1); return o; }
template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { o.rsput(s, char_traits<char>::length(s)); return o; }
template <typename C, typename T> basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, long n) { o.rsput(s, n); return o; }
template <typename C, typename T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o.put('\n'); }
template <typename C, typename T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put('\0'); }
template <typename C, typename T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed); return b; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left); return b; }
inline ios_base& right(ios_base& b) { b.unsetf(ios_base::left); return b; }
inline ios_base& boolalpha(ios_base& b) { return b; }
inline ios_base& noboolalpha(ios_base& b) { return b; }
inline ios_base& skipws(ios_base& b) { return b; }
inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base& showpoint(ios_base& b) { return b; }
inline ios_base& dec(ios_base& b) { return b; }
inline ios_base& hex(ios_base& b) { return b; }
inline bool rsspace(char c) { return (c == ' ') | ((unsigned char)(c - 9) < 5); }
template <typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
  typedef basic_istream I;
 public:
  typedef C char_type;
  basic_istream() {}
  virtual ~basic_istream() {}
  size_t gcount_ = 0;
  long gcount() const { return gcount_; }
  int peek() { if (!this->good()) return -1; if (this->rp_ >= this->buf_.size()) { this->setstate(ios_base::eofbit); return -1; } return (unsigned char)this->buf_[this->rp_]; }
  int get() { gcount_ = 0; if (!this->good()) { this->setstate(ios_base::failbit); return -1; } if (this->rp_ >= this->buf_.size()) { this->setstate(ios_base::eofbit | ios_base::failbit); return -1; } gcount_ = 1; return (unsigned char)this->buf_[this->rp_++]; }
  I& get(C& c) { int v = get(); if (v >= 0) c = (C)v; return *this; }
  I& ignore(long n = 1, int d = -1) { for (long i = 0; i < n; i++) { int c = this->rp_ < this->buf_.size() ? (unsigned char)this->buf_[this->rp_++] : -1; if (c < 0) { this->setstate(ios_base::eofbit); break; } if (c == d) break; } return *this; }
  I& getline(C* s, long n) { return getline(s, n, '\n'); }
  I& getline(C* s, long n, C d) {
    gcount_ = 0;
    long k = 0;
    if (this->good()) {
      for (;;) {
        if (this->rp_ >= this->buf_.size()) { this->setstate(ios_base::eofbit); break; }
        C c = this->buf_[this->rp_];
        if (c == d) { this->rp_++; gcount_++; break; }
        if (k + 1 >= n) { this->setstate(ios_base::failbit); break; }
        s[k++] = c; this->rp_++; gcount_++;
      }
      if (!gcount_) this->setstate(ios_base::failbit);
    } else this->setstate(ios_base::failbit);
    if (n > 0) s[k] = 0;
    return *this;
  }
  bool rsskip() {
    if (!this->good()) { this->setstate(ios_base::failbit); return false; }
    while (this->rp_ < this->buf_.size() && rsspace(this->buf_[this->rp_])) this->rp_++;
    if (this->rp_ >= this->buf_.size()) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; }
    return true;
  }
  bool rsword(std::string& s) {
    if (!rsskip()) return false;
    s.clear();
    while (this->rp_ < this->buf_.size() && !rsspace(this->buf_[this->rp_])) s.push_back(this->buf_[this->rp_++]);
    if (this->rp_ >= this->buf_.size()) this->setstate(ios_base::eofbit);
    return true;
  }
  template <typename N> I& rsnum(N& v) {
    if (!rsskip()) return *this;
    bool neg = false, any = false;
    long long r = 0;
    size_t n = this->buf_.size();
    if (this->buf_[this->rp_] == '-' || this->buf_[this->rp_] == '+') { neg = this->buf_[this->rp_] == '-'; this->rp_++; }
    while (this->rp_ < n && this->buf_[this->rp_] >= '0' && this->buf_[this->rp_] <= '9') { r = r * 10 + (this->buf_[this->rp_++] - '0'); any = true; }
    if (this->rp_ >= n) this->setstate(ios_base::eofbit);
    if (!any) { v = 0; this->setstate(ios_base::failbit); } else v = (N)(neg ? -r : r);
    return *this;
  }
  I& operator>>(short& v) { return rsnum(v); }
  I& operator>>(unsigned short& v) { return rsnum(v); }
  I& operator>>(long long& v) { return rsnum(v); }
  I& operator>>(unsigned long long& v) { return rsnum(v); }
  I& unget() { this->st_ &= ~ios_base::eofbit; if (this->rp_) this->rp_--; else this->setstate(ios_base::badbit); return *this; }
  I& putback(C) { return unget(); }
  I& read(C* s, long n) { gcount_ = 0; while (n-- > 0) { int c = get1(); if (c < 0) { this->setstate(ios_base::eofbit | ios_base::failbit); break; } *s++ = (C)c; gcount_++; } return *this; }
  int get1() { return this->good() && this->rp_ < this->buf_.size() ? (unsigned char)this->buf_[this->rp_++] : -1; }
  long tellg() const { return this->fail() ? -1 : (long)this->rp_; }
  I& seekg(long p) { this->st_ &= ~ios_base::eofbit; this->rp_ = p; return *this; }
  I& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  I& operator>>(int& v) { return rsnum(v); }
  I& operator>>(long& v) { return rsnum(v); }
  I& operator>>(unsigned& v) { return rsnum(v); }
  I& operator>>(unsigned long& v) { return rsnum(v); }
  I& operator>>(I& (*f)(I&)) { return f(*this); }
};
template <typename C, typename T> basic_istream<C, T>& ws(basic_istream<C, T>& i) { while (i.good() && i.peek() >= 0 && rsspace((char)i.peek())) i.get(); return i; }
template <> inline basic_istream<char>& operator>>(basic_istream<char>& i, basic_string<char>& s) { i.rsword(s); return i; }
template <typename C, typename T> basic_istream<C, T>& operator>>(basic_istream<C, T>& i, C& c) { if (i.rsskip()) i.get(c); return i; }
template <> inline basic_istream<char>& getline(basic_istream<char>& i, basic_string<char>& s, char d) {
  if (!i.good()) { i.setstate(ios_base::failbit); return i; }
  s.clear();
  bool any = false;
  for (;;) { int c = i.peek(); if (c < 0) break; i.get(); any = true; if ((char)c == d) return i; s.push_back((char)c); }
  if (!any) i.setstate(ios_base::failbit);
  return i;
}
template <typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {};
inline namespace __cxx11 {
template <typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T> {
 public:
  basic_stringstream() {}
  explicit basic_stringstream(ios_base::openmode) {}
  explicit basic_stringstream(const basic_string<C, T, A>& s, ios_base::openmode = 0) { this->buf_ = s; }
  basic_string<C, T, A> str() const { return this->buf_; }
  void str(const basic_string<C, T, A>& s) { this->buf_ = s; this->rp_ = 0; }
};
template <typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T> {
 public:
  basic_ostringstream() {}
  explicit basic_ostringstream(ios_base::openmode) {}
  explicit basic_ostringstream(const basic_string<C, T, A>& s, ios_base::openmode m = 0) { if (m & ios_base::ate) this->buf_ = s; }
  basic_string<C, T, A> str() const { return this->buf_; }
  void str(const basic_string<C, T, A>& s) { this->buf_ = s; }
};
template <typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T> {
 public:
  basic_istringstream() {}
  explicit basic_istringstream(const basic_string<C, T, A>& s, ios_base::openmode = 0) { this->buf_ = s; }
  basic_string<C, T, A> str() const { return this->buf_; }
  void str(const basic_string<C, T, A>& s) { this->buf_ = s; this->rp_ = 0; }
};
}
template <typename C, typename T> class basic_ifstream : public basic_istream<C, T> {
  bool open_ = false;
 public:
  basic_ifstream() {}
  explicit basic_ifstream(const char* n, ios_base::openmode = 0) { open(n); }
  explicit basic_ifstream(const std::string& n, ios_base::openmode = 0) { open(n.c_str()); }
  void open(const std::string& n, ios_base::openmode = 0) { open(n.c_str()); }
  void open(const char* n, ios_base::openmode = 0) { auto it = rsio_files.find(n); if (it == rsio_files.end()) this->setstate(ios_base::failbit); else { this->buf_ = it->second; open_ = true; } }
  bool is_open() const { return open_; }
  void close() { open_ = false; }
};
// writing to a path with a missing directory ("/nodir/...") fails
template <typename C, typename T> class basic_ofstream : public basic_ostream<C, T> {
  bool open_ = false;
  std::string name_;
 public:
  basic_ofstream() {}
  explicit basic_ofstream(const char* n, ios_base::openmode m = 0) { open(n, m); }
  explicit basic_ofstream(const std::string& n, ios_base::openmode m = 0) { open(n.c_str(), m); }
  void open(const std::string& n, ios_base::openmode m = 0) { open(n.c_str(), m); }
  void open(const char* n, ios_base::openmode m = 0) {
    name_ = n;
    if (name_.find("/nodir/") != std::string::npos) { this->setstate(ios_base::failbit); return; }
    open_ = true;
    if (m & ios_base::app) this->buf_ = rsio_files[name_];
    rsio_files[name_] = this->buf_;
  }
  bool is_open() const { return open_; }
  void close() { if (open_) rsio_files[name_] = this->buf_; open_ = false; }
  ~basic_ofstream() { close(); }
};
struct rssetprec { long n; };
struct rssetw { long n; };
template <typename C> struct rssetfill { C c; };
inline rssetprec setprecision(int n) { return {n}; }
inline rssetw setw(int n) { return {n}; }
template <typename C> rssetfill<C> setfill(C c) { return {c}; }
template <typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, rssetprec p) { o.precision(p.n); return o; }
template <typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, rssetw p) { o.width(p.n); return o; }
template <typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, rssetfill<C> p) { o.fill(p.c); return o; }
std::string rstime(const std::tm* t, const char* f);
struct rsputtime { std::string s; };
inline rsputtime put_time(const std::tm* t, const char* f) { return {rstime(t, f)}; }
template <typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, const rsputtime& p) { o.rsput(p.s.data(), p.s.size()); return o; }
extern ostream cout, cerr, clog;
extern istream cin;
}  // namespace std
