// Native side of the harness API: replays one concrete assignment.
//   usage: prog ENTRY VALUES-FILE [param=value ...]
// Exit 0: all checks held.  Exit 10: a check failed.  Exit 11: an assumption
// does not hold natively.  Exit 12: the value file does not match.
#include "rs.h"
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <string>
#include <utility>
#include <vector>
#include <iostream>
#include <malloc.h>
#include <new>
#include <unistd.h>
#include <chrono>

static std::vector<std::pair<std::string, uint64_t>> vals;
static size_t pos = 0;
static std::map<std::string, int64_t> params;
static int fails = 0;
static bool quiet = false;
static int obsFd = 1;
static void emit(const std::string& l) { std::string s = l + "\n"; if (write(obsFd, s.data(), s.size()) < 0) {} }
static uint64_t next(const char* n) {
  if (pos >= vals.size()) { emit(std::string("RS-MISSING ") + n); _exit(12); }
  if (vals[pos].first != n) { emit(std::string("RS-MISMATCH ") + n + " vs " + vals[pos].first); _exit(12); }
  return vals[pos++].second;
}
extern "C" {
uint64_t rs_sym(const char* n, int bits) { uint64_t v = next(n); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
int64_t rs_int(const char* n, int64_t lo, int64_t hi) { return (int64_t)next(n); }
int rs_choose(const char* n, int k) { return (int)next(n); }
float rs_f32(const char* n) { uint32_t u = (uint32_t)next(n); float f; memcpy(&f, &u, 4); return f; }
double rs_f64(const char* n) { uint64_t u = next(n); double f; memcpy(&f, &u, 8); return f; }
double rs_real(const char* n, double, double) { return rs_f64(n); }
float rs_realf(const char* n, float, float) { return rs_f32(n); }
int64_t rs_param(const char* n, int64_t d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
void rs_assume(bool c) { if (!c) { emit("RS-ASSUME-FAILED"); _exit(fails ? 10 : 11); } }
void rs_check(bool c, const char* m) { if (!c) { emit(std::string("RS-CHECK-FAILED ") + m); fails++; _exit(10); } }
void rs_observe(const char* t, uint64_t v) { char b[64]; snprintf(b, 64, "%llx", (unsigned long long)v); emit(std::string("RS-OBS ") + t + " " + b); }
void rs_observe_d(const char* t, double v) { uint64_t u; memcpy(&u, &v, 8); rs_observe(t, u); }
int64_t rs_concrete(int64_t v) { return v; }
int rs_symbolic() { return 0; }
uint64_t rs_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
double rs_ite_d(bool c, double a, double b) { return c ? a : b; }
void rs_reached(const char*) {}
}
int main(int argc, char** argv) {
  if (argc < 3) return 3;
  std::ifstream f(argv[2]);
  std::string n, v;
  while (f >> n >> v) vals.push_back({n, strtoull(v.c_str(), nullptr, 16)});
  for (int i = 3; i < argc; i++) { std::string a = argv[i]; size_t e = a.find('='); params[a.substr(0, e)] = strtoll(a.c_str() + e + 1, nullptr, 10); }
  void* h = dlsym(RTLD_DEFAULT, argv[1]);
  if (!h) { emit("no entry"); return 3; }
  // Route the code's own stdout away from the protocol stream.
  obsFd = dup(1);
  FILE* dn = freopen("/dev/null", "w", stdout); (void)dn;
  ((void (*)())h)();
  emit("RS-DONE");
  _exit(fails ? 10 : 0);
}
