// Definitions of the stream model (symbolic side only).
#include <filesystem>
#include <iostream>
template class std::__cxx11::basic_string<char>;
std::vector<double> rsio_numbers;
std::map<std::string, std::string> rsio_files;
namespace std {
ostream cout, cerr, clog;
istream cin;
}
struct RsioInit { RsioInit() { std::cout.rsdiscard(); std::cerr.rsdiscard(); std::clog.rsdiscard(); } };
static RsioInit rsioInit;
// ---- character classes of the C locale and the environment
extern "C" {
const char* _ZNKSt9type_info4nameEv(const void*) { return "type"; }
int isprint(int c) { return (c >= 32) & (c < 127); }
static std::map<std::string, std::string>& rsenv() { static std::map<std::string, std::string> e; return e; }
char* getenv(const char* n) { auto it = rsenv().find(n); return it == rsenv().end() ? nullptr : (char*)it->second.c_str(); }
char* secure_getenv(const char* n) { return getenv(n); }
int setenv(const char* n, const char* v, int) { rsenv()[n] = v; return 0; }
int unsetenv(const char* n) { rsenv().erase(n); return 0; }
}

std::string rsfs_dir;
std::vector<RsEntry> rsfs_entries;
// ---- formatted time (numeric fields)
namespace std {
static void rsdigits(std::string& s, int v, int n) { int p = 1; for (int i = 1; i < n; i++) p *= 10; for (; n--; p /= 10) s.push_back((char)('0' + v / p % 10)); }
std::string rstime(const std::tm* t, const char* f) {
  std::string s;
  for (; *f; f++) {
    if (*f != '%') { s.push_back(*f); continue; }
    switch (*++f) {
      case 'Y': rsdigits(s, t->tm_year + 1900, 4); break;
      case 'y': rsdigits(s, (t->tm_year + 1900) % 100, 2); break;
      case 'm': rsdigits(s, t->tm_mon + 1, 2); break;
      case 'd': rsdigits(s, t->tm_mday, 2); break;
      case 'H': rsdigits(s, t->tm_hour, 2); break;
      case 'I': rsdigits(s, (t->tm_hour + 11) % 12 + 1, 2); break;
      case 'M': rsdigits(s, t->tm_min, 2); break;
      case 'S': rsdigits(s, t->tm_sec, 2); break;
      case 'j': rsdigits(s, t->tm_yday + 1, 3); break;
      case 'u': rsdigits(s, (t->tm_wday + 6) % 7 + 1, 1); break;
      case 'w': rsdigits(s, t->tm_wday, 1); break;
      case 'F': s += rstime(t, "%Y-%m-%d"); break;
      case 'T': s += rstime(t, "%H:%M:%S"); break;
      case 'R': s += rstime(t, "%H:%M"); break;
      case 'D': s += rstime(t, "%m/%d/%y"); break;
      case '%': s.push_back('%'); break;
      case 'n': s.push_back('\n'); break;
      case 't': s.push_back('\t'); break;
      default: __builtin_trap();
    }
  }
  return s;
}
}
extern "C" size_t strftime(char* b, size_t n, const char* f, const std::tm* t) {
  std::string s = std::rstime(t, f);
  if (s.size() + 1 > n) return 0;
  for (size_t i = 0; i <= s.size(); i++) b[i] = s.c_str()[i];
  return s.size();
}
