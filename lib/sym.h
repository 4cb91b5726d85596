// Harness interface.  Interpreted symbolically by engine/ksym; implemented
// natively by lib/replay.cpp when a counterexample is replayed on the real code.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sym_bits(const char *name, int bits);          // any value of that many bits
double sym_real(const char *name);                      // any real number
int sym_pick(const char *name, int lo, int hi);         // any value in [lo,hi], one path each
void sym_assume(bool c);
void sym_assert(bool c, const char *label);
void sym_eq(double a, double b, const char *label);     // exact equality over the reals
void sym_near(double a, double b, double tol, const char *label);
void sym_le(double a, double b, const char *label);
int sym_finite(double);
int sym_native();
void sym_note(const char *);
void sym_dump(const char *, double);
void sym_dumpi(const char *, uint64_t);
}
#define HARNESS(n) extern "C" __attribute__((noinline, used, visibility("default"))) void h_##n()
#define THOROUGH_HARNESS(n) extern "C" __attribute__((noinline, used, visibility("default"))) void t_##n()
static inline int sym_int(const char *n) { return (int)(uint32_t)sym_bits(n, 32); }
static inline long sym_long(const char *n) { return (long)sym_bits(n, 64); }
static inline char sym_char(const char *n) { return (char)sym_bits(n, 8); }
static inline bool sym_bool(const char *n) { return sym_bits(n, 1) & 1; }
static inline int sym_int_in(const char *n, int lo, int hi) { int v = sym_int(n); sym_assume(v >= lo); sym_assume(v <= hi); return v; }
static inline double sym_real_in(const char *n, double lo, double hi) { double v = sym_real(n); sym_assume(v >= lo); sym_assume(v <= hi); return v; }
#ifdef THOROUGH
static constexpr bool thorough = true;
#else
static constexpr bool thorough = false;
#endif
