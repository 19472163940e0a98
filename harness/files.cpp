// C29: folder listing, time-stamped names
#include <ctime>
#include <string>
#include <vector>
#include <rofl/common/io.h>
#include "rs.h"
#ifdef RSYM_SYMBOLIC
#include <filesystem>
#else
#include <cstdio>
#include <cstdlib>
#include <sys/stat.h>
#include <unistd.h>
#endif
// content of the folder, made in scratch natively
static std::string makeDir(const std::vector<std::string>& n, const std::vector<int>& k) {
#ifdef RSYM_SYMBOLIC
  rsfs_dir = "/scratch/dir";
  for (size_t i = 0; i < n.size(); i++) rsfs_entries.push_back(RsEntry{n[i], k[i]});
  return rsfs_dir;
#else
  static char base[] = "/tmp/rsymXXXXXX";
  if (!mkdtemp(base)) abort();
  std::string b = base, d = b + "/dir";
  mkdir(d.c_str(), 0700); mkdir((b + "/t").c_str(), 0700); fclose(fopen((b + "/f").c_str(), "w"));
  for (size_t i = 0; i < n.size(); i++) {
    std::string p = d + "/" + n[i];
    if (k[i] == 0) { FILE* f = fopen(p.c_str(), "w"); if (f) fclose(f); }
    else if (k[i] == 1) mkdir(p.c_str(), 0700);
    else if (symlink((b + (k[i] == 2 ? "/f" : "/t")).c_str(), p.c_str())) abort();
  }
  return d;
#endif
}
static void removeDir(const std::string& d, const std::vector<std::string>& n) {
#ifndef RSYM_SYMBOLIC
  std::string b = d.substr(0, d.size() - 4);
  for (auto& s : n) { unlink((d + "/" + s).c_str()); rmdir((d + "/" + s).c_str()); }
  rmdir(d.c_str()); rmdir((b + "/t").c_str()); unlink((b + "/f").c_str()); rmdir(b.c_str());
#else
  rsfs_entries.clear();
#endif
}
static bool same(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool eq = true;
  for (size_t i = 0; i < a.size(); i++) eq &= a[i] == b[i];
  return eq;
}
static bool before(const std::string& a, const std::string& b) {
  size_t n = a.size() < b.size() ? a.size() : b.size();
  for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i];
  return a.size() < b.size();
}
RS_ENTRY(listing) {
  int n = (int)rs_param("n", 2), len = (int)rs_param("len", 2);
  std::vector<std::string> name;
  std::vector<int> kind;
  for (int i = 0; i < n; i++) {
    int l = 1 + rs_choose("len", len);
    std::string s;
    for (int j = 0; j < l; j++) { char c = rs_i8("c"); rs_assume((c != 0) & (c != '/')); s.push_back(c); }
    rs_assume(!same(s, ".") && !same(s, ".."));
    for (auto& o : name) rs_assume(!same(o, s));
    name.push_back(s);
    kind.push_back(rs_choose("kind", 4));
  }
  std::string d = makeDir(name, kind), q = d;
  if (rs_param("slash", 0)) q += "/";
  std::vector<std::string> got;
  rofl::getDirectoryFiles(q, got);
  size_t files = 0;
  for (int i = 0; i < n; i++) files += !(kind[i] & 1);
  rs_observe("n", got.size());
  rs_check(got.size() == files, "as many entries as regular files");
  for (size_t k = 0; k < got.size(); k++) {
    bool found = false;
    for (int i = 0; i < n; i++) if (!(kind[i] & 1)) found |= same(got[k], d + "/" + name[i]);
    rs_check(found, "each entry is the path of a regular file of the folder");
    if (k) rs_check(before(got[k - 1], got[k]), "the paths are sorted, each given once");
  }
  removeDir(d, name);
}
// local time under control of the harness (both sides)
static struct tm rs_tm;
extern "C" time_t time(time_t* t) noexcept { if (t) *t = 12345; return 12345; }
extern "C" struct tm* localtime(const time_t*) noexcept { return &rs_tm; }
extern "C" struct tm* localtime_r(const time_t*, struct tm* t) noexcept { *t = rs_tm; return t; }
RS_ENTRY(stamp) {
  rs_tm.tm_year = (int)rs_int("year", 1970, 9999) - 1900; rs_tm.tm_mon = (int)rs_int("mon", 0, 11); rs_tm.tm_mday = (int)rs_int("day", 1, 31);
  rs_tm.tm_hour = (int)rs_int("hour", 0, 23); rs_tm.tm_min = (int)rs_int("min", 0, 59); rs_tm.tm_sec = (int)rs_int("sec", 0, 60);
  std::string a, b;
  int la = rs_choose("la", 4), lb = rs_choose("lb", 4);
  for (int i = 0; i < la; i++) a.push_back((char)rs_i8("a"));
  for (int i = 0; i < lb; i++) b.push_back((char)rs_i8("b"));
  int form = rs_choose("form", 2);
  std::string s = form ? rofl::generateStampedString(a, b) : rofl::generateStampedString(a);
  if (!form) b.clear();
  rs_check(s.size() == a.size() + 16 + b.size(), "prefix, 16 characters of the time, postfix");
  if (s.size() != a.size() + 16 + b.size()) return;
  rs_check(same(s.substr(0, a.size()), a), "starts with the prefix");
  rs_check(same(s.substr(a.size() + 16), b), "ends with the postfix");
  std::string t = s.substr(a.size(), 16);
  auto num = [&](int p, int n) { int v = 0; for (int i = 0; i < n; i++) v = v * 10 + (t[p + i] - '0'); return v; };
  bool digits = true;
  for (int i = 0; i < 16; i++) digits &= i == 8 || i == 13 ? t[i] == '_' : (unsigned char)(t[i] - '0') < 10;
  rs_check(digits, "eight digits of the date, four of hour and minute, two of the second, separated by underscores");
  rs_check(num(0, 4) == rs_tm.tm_year + 1900 && num(4, 2) == rs_tm.tm_mon + 1 && num(6, 2) == rs_tm.tm_mday, "year, month and day");
  rs_check(num(9, 2) == rs_tm.tm_hour && num(11, 2) == rs_tm.tm_min && num(14, 2) == rs_tm.tm_sec, "hour, minute and second");
}
