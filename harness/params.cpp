// C15, C16, C32: parameter maps
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <rofl/common/param_map.h>
#include "rs.h"
#ifndef RSYM_SYMBOLIC
#include <unistd.h>
#endif
using namespace rofl;
typedef std::vector<std::pair<std::string, std::string>> Ref;
static bool same(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool eq = true;
  for (size_t i = 0; i < a.size(); i++) eq &= a[i] == b[i];
  return eq;
}
static bool before(const std::string& a, const std::string& b) {
  size_t n = a.size() < b.size() ? a.size() : b.size();
  for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i];
  return a.size() < b.size();
}
static void put(Ref& r, const std::string& n, const std::string& v) {
  size_t i = 0;
  while (i < r.size() && before(r[i].first, n)) i++;
  if (i < r.size() && same(r[i].first, n)) r[i].second = v; else r.insert(r.begin() + i, std::make_pair(n, v));
}
static std::string text(const Ref& r, const std::string& prefix) {
  std::string s;
  for (auto& p : r) s += prefix + p.first + " " + p.second + "\n";
  return s;
}
static void observe(const char* tag, const std::string& s) {
  uint64_t h = s.size();
  for (char c : s) h = (h ^ (unsigned char)c) * 31 + 7;
  rs_observe(tag, h);
}
static void expect(const ParamMap& m, const Ref& r, const char* msg) {
  std::stringstream out;
  bool ok = m.write(out);
  observe("content", out.str());
  rs_check(ok, "writing succeeds");
  rs_check(same(out.str(), text(r, "")), msg);
  // every value is also given by name, as it is
  ParamMap c(m);
  for (auto& p : r) {
    std::string v = "?", d = "default";
    bool found = c.getParam(p.first, v, d);
    rs_check(found, "a stored parameter is found by name");
    rs_check(same(v, p.second), "the text of a parameter is given as stored");
  }
}
// symbolic text of n characters, none of which is zero
static std::string sym(const char* name, int n) {
  std::string s;
  for (int i = 0; i < n; i++) { char c = rs_i8(name); rs_assume(c != 0); s.push_back(c); }
  return s;
}
static std::string word(const char* name, int n) {
  std::string s = sym(name, n);
  for (char c : s) rs_assume((c != ' ') & !((unsigned char)(c - 9) < 5));
  return s;
}
static bool option(const std::string& s) { return s.size() >= 2 && ((s[0] == '-') & ((unsigned)((s[1] | 32) - 'a') < 26)); }
// ---- C15
RS_ENTRY(args) {
  int n = (int)rs_param("n", 3), len = (int)rs_param("len", 3);
  ParamMap m;
  Ref r;
  if (rs_param("old", 1)) { m.setParamString("ab", "old"); put(r, "ab", "old"); m.setParamString("q", "q0"); put(r, "q", "q0"); }
  std::vector<std::string> a(1, "-prog");
  for (int i = 0; i < n; i++) a.push_back(sym("arg", rs_choose("len", len + 1)));
  std::vector<char*> argv;
  for (auto& s : a) argv.push_back(&s[0]);
  argv.push_back(nullptr);
  bool ok = m.read(n + 1, argv.data());
  rs_check(ok, "reading succeeds");
  for (int i = 1; i < n; i++) if (option(a[i]) && !option(a[i + 1])) put(r, a[i].substr(1), a[i + 1]);
  expect(m, r, "exactly the values that follow their option are stored, the last one of each option");
}
RS_ENTRY(typed) {
  ParamMap m;
  int k = rs_choose("kind", 5);
  m.setParam("other", 17);
  if (k == 0) {
    int v = rs_int("v", -(1 << 12), 1 << 12), w = 5, d = 77;
    m.setParam("x", v);
    bool f = m.getParam("x", w, d);
    rs_observe("w", w);
    rs_check(f, "a parameter set is found"); rs_check(w == v, "a parameter set is given back");
  } else if (k == 1) {
    int d = rs_int("d", -(1 << 12), 1 << 12), w = 5, w2 = 6;
    bool f = m.getParam("x", w, d);
    rs_check(!f, "a missing parameter is reported"); rs_check(w == d, "a missing parameter has the default value");
    bool f2 = m.getParam("x", w2, 99);
    rs_check(f2, "the default value is stored"); rs_check(w2 == d, "the default value is stored");
  } else if (k == 2) {
    // the last value set counts
    std::string s = sym("s", rs_choose("len", 3)), w = "w";
    m.setParam("x", 12); m.setParamString("x", s);
    bool f = m.getParam("x", w, std::string("d"));
    rs_check(f, "a parameter set is found"); rs_check(same(w, s), "the last text set is given back");
    m.setParam("x", std::string("new"));
    m.getParam("x", w, std::string("d"));
    rs_check(same(w, "new"), "the last text set is given back");
  } else if (k == 3) {
    // text of an integer, or not
    std::string s = sym("s", rs_choose("len", 4));
    int w = 4321;
    m.setParamString("x", s);
    bool f = m.getParam("x", w, 99);
    rs_observe("w", w);
    rs_check(f, "a parameter set is found");
    bool neg = !s.empty() && s[0] == '-', sign = !s.empty() && ((s[0] == '-') | (s[0] == '+')), num = s.size() > (size_t)sign;
    int v = 0;
    for (size_t i = sign; i < s.size(); i++) { num &= (unsigned)(s[i] - '0') < 10; v = v * 10 + (s[i] - '0'); }
    rs_check(w == (num ? neg ? -v : v : 4321), "the number its text denotes, or the variable unchanged if it denotes none");
    std::string t = "t";
    m.getParam("x", t, std::string("d"));
    rs_check(same(t, s), "reading a parameter does not change it");
  } else {
    bool b = rs_choose("b", 2), w = !b;
    m.setParam("x", b);
    rs_check(m.getParam("x", w, !b) && w == b, "a boolean set is given back");
    m.clear();
    int o = 0;
    rs_check(!m.getParam("other", o, 3) && o == 3, "no parameter after clearing");
    return;
  }
  int o = 0;
  rs_check(m.getParam("other", o, 3) && o == 17, "other parameters are not affected");
}
static std::string listText(int n) {
  std::string s;
  for (int i = 0; i < n; i++) { char c = rs_i8("c"); rs_assume((c == '[') | (c == ',') | (c == ']') | (c == '-') | (c == 'x') | ((unsigned char)(c - '0') < 10)); s.push_back(c); }
  return s;
}
static bool sep(char c) { return (c == '[') | (c == ']') | (c == ','); }
static std::vector<std::string> split(const std::string& s) {
  std::vector<std::string> t;
  bool in = false;
  for (char c : s) { if (sep(c)) in = false; else { if (!in) t.push_back(""); in = true; t.back().push_back(c); } }
  return t;
}
static bool number(const std::string& s, int& v) {
  bool neg = s[0] == '-', num = s.size() > (size_t)neg;
  v = 0;
  for (size_t i = neg; i < s.size(); i++) { num &= (unsigned)(s[i] - '0') < 10; v = v * 10 + (s[i] - '0'); }
  if (neg) v = -v;
  return num;
}
RS_ENTRY(container) {
  int n = (int)rs_param("n", 4), size = (int)rs_param("size", 2);
  ParamMap m;
  std::string s = listText(n), t = "t", dflt = rs_choose("dflt", 2) ? "[8,9,10]" : "";
  bool present = rs_choose("present", 2);
  if (present) m.setParamString("v", s);
  std::string& used = present ? s : dflt;
  std::vector<int> v(size, 1);
  int def = -7;
  bool f = m.getParamContainer("v", v.begin(), v.end(), dflt, def);
  rs_check(f == present, "tells whether the parameter is stored");
  std::vector<std::string> tok = split(used);
  bool valid = true;
  for (int i = 0; i < size; i++) {
    rs_observe("v", v[i]);
    int x = def;
    if (i < (int)tok.size() && valid) valid = number(tok[i], x);
    if (!valid) x = def;
    rs_check(v[i] == x, "one value per token, the default value past them and from the first token that is not a number");
  }
  f = m.getParam("v", t, std::string("d"));
  rs_check(f && same(t, used), "the text is stored as it is, the default text when missing");
}
RS_ENTRY(inserter) {
  int n = (int)rs_param("n", 4);
  ParamMap m;
  std::string s = listText(n), t = "t";
  bool present = rs_choose("present", 2);
  if (present) m.setParamString("v", s);
  std::vector<int> v(1, 55), w(1, 55);
  int def = -7;
  bool f = m.getParamContainerInserter("v", std::back_inserter(v), def);
  rs_check(f == present, "tells whether the parameter is stored");
  if (present) for (auto& k : split(s)) { int x; if (!number(k, x)) break; w.push_back(x); }
  rs_check(v.size() == w.size(), "one value per token before the first that is not a number");
  bool eq = true;
  for (size_t i = 0; i < v.size() && i < w.size(); i++) eq &= v[i] == w[i];
  rs_check(eq, "the numbers of the tokens in their order");
}
// ---- C16
static void readText(const std::string& s, Ref& r) {
  // lines; words; two words at least, the first of which does not start with '#'
  std::vector<std::string> w;
  bool in = false;
  for (size_t i = 0; i <= s.size(); i++) {
    if (i == s.size() || s[i] == '\n') {
      if (w.size() >= 2 && w[0][0] != '#') put(r, w[0], w[1]);
      w.clear(); in = false;
    } else if ((s[i] == ' ') | ((unsigned char)(s[i] - 9) < 5)) in = false;
    else { if (!in) w.push_back(""); in = true; w.back().push_back(s[i]); }
  }
}
RS_ENTRY(read_text) {
  int n = (int)rs_param("n", 5);
  std::string s;
  for (int i = 0; i < n; i++) { char c = rs_i8("c"); rs_assume(c != 0); s.push_back(c); }
  ParamMap m;
  Ref r;
  m.setParamString("a", "old"); put(r, "a", "old");
  std::stringstream in(s);
  m.read(in);
  readText(s, r);
  expect(m, r, "every line of two words sets a parameter, except comments");
}
RS_ENTRY(read_lines) {
  int n = (int)rs_param("lines", 2);
  int lead = (int)rs_param("lead", 0);
  static const char* gap[] = {" ", "\t  "};
  static const char* tail[] = {"\n", " # x\n", "\n\n", ""};
  std::string s;
  for (int i = 0; i < n; i++) {
    if (lead >> i & 1) s += "  ";
    s += word("name", 1 + rs_choose("ln", 2));
    s += gap[rs_choose("gap", 2)];
    s += word("value", 1 + rs_choose("lv", 2));
    s += tail[i + 1 == n ? 3 : rs_choose("tail", 3)];
  }
  ParamMap m;
  Ref r;
  std::stringstream in(s);
  m.read(in);
  readText(s, r);
  expect(m, r, "the last value of each name counts");
}
static std::string scratch(bool remove = false) {
#ifdef RSYM_SYMBOLIC
  return "/scratch/params";
#else
  static char dir[] = "/tmp/rsymXXXXXX";
  static bool made = mkdtemp(dir) != nullptr;
  std::string f = std::string(dir) + "/params";
  if (remove && made) { unlink(f.c_str()); rmdir(dir); }
  return f;
#endif
}
RS_ENTRY(roundtrip) {
  int n = (int)rs_param("n", 2), form = (int)rs_param("form", 0);
  ParamMap m, b;
  Ref r;
  for (int i = 0; i < n; i++) {
    std::string a = word("name", 1 + rs_choose("ln", 2)), v = word("value", 1 + rs_choose("lv", 2));
    rs_assume(a[0] != '#');
    m.setParamString(a, v);
    put(r, a, v);
  }
  if (form == 0) {
    std::stringstream ss;
    m.write(ss);
    std::stringstream in(ss.str());
    b.read(in);
  } else if (form == 1) {
    std::string f = scratch(), bad = "/tmp/nodir/a/b";
    rs_check(m.write(f), "writing the file succeeds");
    rs_check(b.read(f), "reading the file succeeds");
    scratch(true);
    rs_check(!m.write(bad), "writing to a missing folder is reported");
    rs_check(!b.read(bad), "reading a missing file is reported");
  } else {
    // comments: nothing is read back; the text is the one of each line after the prefix
    std::stringstream ss;
    m.write(ss, "#  ");
    rs_check(same(ss.str(), text(r, "#  ")), "each line follows the prefix");
    std::stringstream in(ss.str());
    b.read(in);
    r.clear();
  }
  expect(b, r, "what is written is read back");
}
// ---- C32
RS_ENTRY(tilde) {
  int n = (int)rs_param("n", 2), len = (int)rs_param("len", 3);
  ParamMap m;
  Ref r;
  bool home = rs_choose("home", 4) > 0;
  std::string h = "/h/u";
  if (home) setenv("HOME", h.c_str(), 1); else unsetenv("HOME");
  for (int i = 0; i < n; i++) {
    std::string v = sym("value", rs_choose("len", len + 1)), name(1, (char)('a' + i));
    bool t = !v.empty() && v[0] == '~';
    if (t) rs_assume(v.size() >= 2 && v[1] == '/');
    m.setParamString(name, v);
    put(r, name, t && home ? h + v.substr(1) : v);
  }
  m.adaptTildeInPaths();
  expect(m, r, "the tilde that starts a path becomes the home folder, nothing else changes");
}
