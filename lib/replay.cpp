// Native implementation of the harness interface: feeds a recorded input
// sequence to the real, compiled code.
//   exit 0 all assertions held; 42 an assertion failed; 43 an assumption failed;
//   44 the recorded inputs do not fit this execution.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <string>
#include <unistd.h>
#include <vector>
#include <algorithm>
#include "sym.h"
struct In { std::string name; char kind; std::string val; };
static std::vector<In> ins; static size_t pos = 0; static bool keep = false; static int bad = 0;
static const char *want = nullptr;
static void quit(int c) { fflush(nullptr); _exit(c); }
// inputs are taken in order; by name where the compilers evaluate the arguments of a call in different orders
static In &next(const char *n, char k) {
  size_t q = pos; while (q < ins.size() && (ins[q].name != n || ins[q].kind != k)) q++;
  if (q < ins.size()) std::rotate(ins.begin() + pos, ins.begin() + q, ins.begin() + q + 1);
  if (pos >= ins.size() || ins[pos].kind != k) { fprintf(stderr, "REPLAY: input %s not recorded at position %zu\n", n, pos); quit(44); }
  return ins[pos++];
}
static void fail(const char *l) { fprintf(stderr, "REPLAY-FAIL %s\n", l); if (!want || !strcmp(want, l)) quit(42); bad = 1; }
static double rat(const std::string &s) {
  size_t p = s.find('/'); if (p == std::string::npos) return (double)strtold(s.c_str(), nullptr);
  return (double)(strtold(s.substr(0, p).c_str(), nullptr) / strtold(s.substr(p + 1).c_str(), nullptr));
}
extern "C" {
uint64_t sym_bits(const char *n, int b) { uint64_t v = strtoull(next(n, 'i').val.c_str(), nullptr, 10); return b < 64 ? v & ((1ull << b) - 1) : v; }
double sym_real(const char *n) { return rat(next(n, 'r').val); }
int sym_pick(const char *n, int, int) { return (int)(uint32_t)strtoull(next(n, 'i').val.c_str(), nullptr, 10); }
void sym_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY: assumption not met\n"); quit(bad ? 42 : 43); } }
void sym_assert(bool c, const char *l) { if (!c) fail(l); }
static double scale(double a, double b) { return std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b))); }
void sym_eq(double a, double b, const char *l) { if (!(std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= 1e-9 * scale(a, b))) { fprintf(stderr, "  %.17g vs %.17g\n", a, b); fail(l); } }
void sym_near(double a, double b, double t, const char *l) { if (!(std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= t + 1e-12 * scale(a, b))) { fprintf(stderr, "  %.17g vs %.17g\n", a, b); fail(l); } }
void sym_le(double a, double b, const char *l) { if (!(std::isfinite(a) && std::isfinite(b) && a <= b + 1e-9 * scale(a, b))) { fprintf(stderr, "  %.17g > %.17g\n", a, b); fail(l); } }
int sym_finite(double a) { return std::isfinite(a); }
int sym_native() { return 1; }
void sym_note(const char *) {}
void sym_dump(const char *n, double v) { fprintf(stderr, "%s = %.17g\n", n, v); }
void sym_dumpi(const char *n, uint64_t v) { fprintf(stderr, "%s = %lld\n", n, (long long)v); }
}
int main(int argc, char **argv) {
  if (argc < 3) return 45;
  std::ifstream f(argv[2]); std::string line;
  while (std::getline(f, line)) { // name<TAB>kind<TAB>value
    size_t a = line.find('\t'), b = line.find('\t', a + 1); if (a == std::string::npos || b == std::string::npos) continue;
    ins.push_back({line.substr(0, a), line[a + 1], line.substr(b + 1)});
  }
  if (argc > 3 && argv[3][0]) want = argv[3];
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 45; }
  fn();
  quit(bad ? 42 : 0);
}
