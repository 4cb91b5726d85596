// Tuple arithmetic acts on every component independently.
#include "sym.h"
#include <cstddef>
#include <array>
#include <ristra/math/tuple.h>
using namespace ristra::math;
using T3 = std::tuple<double, float, double>; using TI = std::tuple<int, long, double>;
static T3 mk(const char *n) { return T3{sym_real(n), (float)sym_real(n), sym_real(n)}; }
#define EACH(label, r, e0, e1, e2) sym_eq(std::get<0>(r), e0, label "0"); { double g_ = std::get<1>(r); sym_near(g_, (float)(e1), sym_native() ? 1e-3 * (g_ < 0 ? 1 - g_ : 1 + g_) : 0, label "1"); }; sym_eq(std::get<2>(r), e2, label "2")
#define A(i) std::get<i>(a0)
#define B(i) std::get<i>(b0)
#define OPS(nm, op, fn) \
HARNESS(nm) { const T3 a0 = mk("a"), b0 = mk("b"); double s = sym_real("s"); T3 a = a0, b = b0; if (#op[0] == '/') { sym_assume(B(0) != 0); sym_assume(B(1) != 0); sym_assume(B(2) != 0); sym_assume(s != 0); } \
  auto r = a op b; EACH("tuple-tuple", r, A(0) op B(0), A(1) op B(1), A(2) op B(2)); \
  auto q = a op s; EACH("tuple-scalar", q, A(0) op s, A(1) op s, A(2) op s); \
  auto p = s op b; EACH("scalar-tuple", p, s op B(0), s op B(1), s op B(2)); \
  EACH("operands-kept-a", a, A(0), A(1), A(2)); EACH("operands-kept-b", b, B(0), B(1), B(2)); \
  fn(a, b); EACH("in-place", a, A(0) op B(0), A(1) op B(1), A(2) op B(2)); EACH("right-kept", b, B(0), B(1), B(2)); \
  a = a0; fn(a, s); EACH("in-place-scalar", a, A(0) op s, A(1) op s, A(2) op s); \
  a = b0; fn(a, a); EACH("in-place-self", a, B(0) op B(0), B(1) op B(1), B(2) op B(2)); \
  a = b0; fn(a, std::get<0>(a)); EACH("in-place-own-first", a, B(0) op B(0), B(1) op B(0), B(2) op B(0)); a = b0; fn(a, std::get<2>(a)); EACH("in-place-own-last", a, B(0) op B(2), B(1) op B(2), B(2) op B(2)); }
OPS(add, +, plus_equal) OPS(sub, -, minus_equal) OPS(mul, *, multiplies_equal) OPS(div, /, divides_equal)
HARNESS(ints) { TI a{sym_int("a"), sym_long("a"), sym_real("a")}, b{sym_int("b"), sym_long("b"), sym_real("b")}; auto s = a + b, d = a - b, m = a * b;
  sym_assert(std::get<0>(s) == (int)((unsigned)std::get<0>(a) + (unsigned)std::get<0>(b)), "int+"); sym_assert(std::get<1>(s) == (long)((unsigned long)std::get<1>(a) + (unsigned long)std::get<1>(b)), "long+");
  sym_assert(std::get<0>(d) == (int)((unsigned)std::get<0>(a) - (unsigned)std::get<0>(b)), "int-"); sym_assert(std::get<0>(m) == (int)((unsigned)std::get<0>(a) * (unsigned)std::get<0>(b)), "int*"); sym_eq(std::get<2>(d), std::get<2>(a) - std::get<2>(b), "mixed-real"); }
HARNESS(fill) { T3 a = mk("a"); double s = sym_real("s"); ristra::math::fill(a, s); EACH("fill", a, s, s, s); }
HARNESS(one) { std::tuple<double> a(sym_real("a")), b(sym_real("b")); auto r = a + b, p = a * b; sym_eq(std::get<0>(r), std::get<0>(a) + std::get<0>(b), "one+"); sym_eq(std::get<0>(p), std::get<0>(a) * std::get<0>(b), "one*"); }
// integer components with a real scalar, and the reverse: the operation is made in the common type and then converted
using TM = std::tuple<int, short, unsigned char, long, float, double>;
template<class T, class R> void comp(const T &r, const R &e, const char *l) { sym_assert(r == static_cast<T>(e), l); }
#define EACH6(label, X) comp(std::get<0>(X), C(0), label "0"); comp(std::get<1>(X), C(1), label "1"); comp(std::get<2>(X), C(2), label "2"); comp(std::get<3>(X), C(3), label "3"); comp(std::get<4>(X), C(4), label "4"); comp(std::get<5>(X), C(5), label "5")
#define MIX(nm, op, fn) \
template<class S> void nm##_mix(int k, S s) { static const TM v[] = {TM(7, -3, 9, 1L << 40, 0.5f, -2.25), TM(-9, 100, 20, -(1L << 35) - 3, -1.5f, 8), TM(1 << 28, 127, 1, 5, 3, 0.125), TM(0, 0, 0, 0, 0, 0)}; const TM a0 = v[k]; TM a = a0; \
  { auto r = a op s; EACH6(#nm "-right", r); } fn(a, s); EACH6(#nm "-in-place", a); }
#define C(i) (std::get<i>(a0) + s)
MIX(madd, +, plus_equal)
#undef C
#define C(i) (std::get<i>(a0) - s)
MIX(msub, -, minus_equal)
#undef C
#define C(i) (std::get<i>(a0) * s)
MIX(mmul, *, multiplies_equal)
#undef C
#define C(i) (std::get<i>(a0) / s)
MIX(mdiv, /, divides_equal)
#undef C
HARNESS(mixed_scalars) { int k = sym_pick("k", 0, 3); madd_mix(k, 0.75); madd_mix(k, 3); msub_mix(k, 0.75); msub_mix(k, 5); mmul_mix(k, 0.5); mmul_mix(k, 2); mdiv_mix(k, 0.5); mdiv_mix(k, 2); }
HARNESS(left_scalars) { int k = sym_pick("k", 0, 2); static const TM v[] = {TM(7, -3, 9, 3, 0.5f, -2.25), TM(-9, 100, 20, -4, -1.5f, 8), TM(3, 127, 1, 5, 3, 0.125)}; const TM a0 = v[k];
#define C(i) (20.5 - std::get<i>(a0))
  { auto r = 20.5 - a0; EACH6("real-left-", r); }
#undef C
#define C(i) (20.5 / std::get<i>(a0))
  { auto r = 20.5 / a0; EACH6("real-left/", r); }
#undef C
#define C(i) (100 / std::get<i>(a0))
  { auto r = 100 / a0; EACH6("int-left/", r); }
#undef C
#define C(i) (1.5 * std::get<i>(a0))
  { auto r = 1.5 * a0; EACH6("real-left*", r); }
#undef C
#define C(i) (1.5 + std::get<i>(a0))
  { auto r = 1.5 + a0; EACH6("real-left+", r); }
#undef C
}
HARNESS(six) { TM a(sym_int("a"), (short)sym_bits("b", 16), (unsigned char)sym_bits("c", 8), sym_long("d"), (float)sym_real("e"), sym_real("f")), b(sym_int("g"), (short)sym_bits("h", 16), (unsigned char)sym_bits("i", 8), sym_long("j"), 1.0f, 2.0); const TM a0 = a, b0 = b; sym_assume(B(0) > 0 && B(0) < 4 && A(0) > -100 && A(0) < 100); sym_assume(B(1) > 0); sym_assume(B(2) > 0); sym_assume(B(3) == 3); sym_assume(A(3) > -100 && A(3) < 100);
#define C(i) (A(i) + B(i))
  { auto r = a + b; EACH6("six+", r); plus_equal(a, b); EACH6("six+=", a); a = a0; }
#undef C
#define C(i) (A(i) - B(i))
  { auto r = a - b; EACH6("six-", r); minus_equal(a, b); EACH6("six-=", a); a = a0; }
#undef C
#define C(i) (A(i) * B(i))
  { auto r = a * b; EACH6("six*", r); multiplies_equal(a, b); EACH6("six*=", a); a = a0; }
#undef C
#define C(i) (A(i) / B(i))
  { auto r = a / b; EACH6("six/", r); divides_equal(a, b); EACH6("six/=", a); a = a0; }
#undef C
  int s = sym_int("s"); sym_assume(s > -1000 && s < 1000 && A(3) < 1000);
#define C(i) (s)
  ristra::math::fill(a, (short)5); comp(std::get<0>(a), 5, "fill6"); comp(std::get<3>(a), 5, "fill6"); comp(std::get<5>(a), 5, "fill6"); ristra::math::fill(a, s); comp(std::get<0>(a), s, "fills"); comp(std::get<1>(a), s, "fills"); comp(std::get<2>(a), s, "fills"); comp(std::get<3>(a), s, "fills");
#undef C
}
HARNESS(self_sums) { using T2 = std::tuple<int, long>; int x = sym_int("x"); long y = sym_long("y"); T2 a(x, y); const T2 a0 = a; plus_equal(a, a); sym_assert(std::get<0>(a) == (int)(2u * (unsigned)x) && std::get<1>(a) == (long)(2ul * (unsigned long)y), "self+"); a = a0; minus_equal(a, a); sym_assert(std::get<0>(a) == 0 && std::get<1>(a) == 0, "self-"); a = a0; a = a + a; sym_assert(std::get<0>(a) == (int)(2u * (unsigned)x) && std::get<1>(a) == (long)(2ul * (unsigned long)y), "self-sum"); }
// longer tuples of reals, integers or both
template<class T, size_t... I> void listed(const T &t, double *v, std::index_sequence<I...>) { ((v[I] = (double)std::get<I>(t)), ...); }
template<size_t N, size_t... I> auto reals(const double *v, std::index_sequence<I...>) { return std::make_tuple(v[I]...); }
template<size_t N> void longer() { constexpr auto S = std::make_index_sequence<N>{}; double a[N], b[N], r[N], s = sym_real("s"); for (double &x : a) x = sym_real("a"); for (double &x : b) { x = sym_real("b"); sym_assume(x != 0); } sym_assume(s != 0); const auto t = reals<N>(a, S), u = reals<N>(b, S); auto w = t;
#define OP(op, fn, l) listed(t op u, r, S); for (size_t i = 0; i < N; i++) sym_eq(r[i], a[i] op b[i], l); listed(t op s, r, S); for (size_t i = 0; i < N; i++) sym_eq(r[i], a[i] op s, l "-scalar"); listed(s op u, r, S); for (size_t i = 0; i < N; i++) sym_eq(r[i], s op b[i], l "-left"); w = t; fn(w, u); listed(w, r, S); for (size_t i = 0; i < N; i++) sym_eq(r[i], a[i] op b[i], l "-in-place"); w = t; fn(w, s); listed(w, r, S); for (size_t i = 0; i < N; i++) sym_eq(r[i], a[i] op s, l "-in-place-scalar");
  OP(+, plus_equal, "long-sum") OP(-, minus_equal, "long-difference") OP(*, multiplies_equal, "long-product") OP(/, divides_equal, "long-quotient") ristra::math::fill(w, s); listed(w, r, S); for (size_t i = 0; i < N; i++) sym_eq(r[i], s, "long-fill"); }
HARNESS(long_4) { longer<4>(); } HARNESS(long_9) { longer<9>(); } HARNESS(long_16) { longer<16>(); }
