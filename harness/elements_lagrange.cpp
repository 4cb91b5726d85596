// Lagrange elements of arbitrary order.
#include "sym.h"
#include <vector>
#include <cmath>
#include <ristra/elements/elements.h>
using namespace ristra::elements; using vec = std::vector<double>; using mat = std::vector<vec>;
static double pw(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }
// any distinct nodes, any point: the values and slopes are those of the interpolating polynomials
template<class E> void oned(int n) {
  E e; vec x(n + 1), b(n + 1, 777.), d(n + 1, 777.); double t = sym_real("t"); for (auto &c : x) c = sym_real("x"); for (int i = 0; i <= n; i++) for (int j = 0; j < i; j++) sym_assume(x[i] != x[j]);
  e.lagrange_1D(b, d, t, x, n);
  for (int i = 0; i <= n; i++) { double num = 1, den = 1, s = 0; for (int j = 0; j <= n; j++) if (j != i) { num *= t - x[j]; den *= x[i] - x[j]; double q = 1; for (int k = 0; k <= n; k++) if (k != i && k != j) q *= t - x[k]; s += q; } sym_eq(b[i] * den, num, "interpolant"); sym_eq(d[i] * den, s, "slope"); } }
HARNESS(quad_1d_1) { oned<QuadN>(1); } HARNESS(quad_1d_2) { oned<QuadN>(2); } HARNESS(quad_1d_3) { oned<QuadN>(3); } HARNESS(hex_1d_1) { oned<HexN>(1); } HARNESS(hex_1d_2) { oned<HexN>(2); } HARNESS(hex_1d_3) { oned<HexN>(3); }
HARNESS(quad_1d_0) { oned<QuadN>(0); } HARNESS(hex_1d_0) { oned<HexN>(0); } HARNESS(quad_1d_4) { oned<QuadN>(4); } HARNESS(hex_1d_4) { oned<HexN>(4); }
// with given nodes every polynomial up to the order is reproduced with its derivative, at every point
template<class E> void repro(int n) {
  E e; vec x(n + 1), b(n + 1), d(n + 1); for (int i = 0; i <= n; i++) x[i] = -1 + 2. * i / n; double t = sym_real("t"); e.lagrange_1D(b, d, t, x, n); double s = 0, ds = 0, f = 0, df = 0; vec c(n + 1); for (auto &q : c) q = sym_real("c");
  double v = 0, dv = 0; for (int i = 0; i <= n; i++) { double p = 0; for (int k = 0; k <= n; k++) p += c[k] * pw(x[i], k); f += p * b[i]; df += p * d[i]; s += b[i]; ds += d[i]; } for (int k = 0; k <= n; k++) { v += c[k] * pw(t, k); if (k) dv += k * c[k] * pw(t, k - 1); }
  sym_eq(s, 1, "partition-of-unity"); sym_eq(ds, 0, "slopes-sum-to-zero"); sym_eq(f, v, "reproduces-polynomials"); sym_eq(df, dv, "reproduces-derivatives"); }
HARNESS(quad_repro) { repro<QuadN>(sym_pick("order", 1, thorough ? 16 : 10)); } HARNESS(hex_repro) { repro<HexN>(sym_pick("order", 1, thorough ? 16 : 10)); }
// Chebyshev spacing: increasing from -1 to 1, symmetric
template<class E> void cheb() { int n = sym_pick("order", 1, 20); E e; vec x(n + 1, 777.); e.chebyshev_nodes_1D(x, n); sym_eq(x[0], -1, "first"); sym_eq(x[n], 1, "last"); for (int i = 0; i < n; i++) sym_assert(x[i] < x[i + 1], "increasing"); for (int i = 0; i <= n; i++) sym_near(x[i], -x[n - i], 1e-12, "symmetric"); const double pi = 3.14159265358979323846; for (int i = 1; i < n; i++) sym_near(x[i], -std::cos(pi * (2 * i + 1) / (2 * (n + 1))), 1e-12, "chebyshev"); }
HARNESS(quad_chebyshev) { cheb<QuadN>(); } HARNESS(hex_chebyshev) { cheb<HexN>(); }
// tensor products: node m of an element of order n is (m%N, m/N%N, m/N/N); any nodes for low order
template<class E, int D> void tensor(int n, bool anynodes) {
  E e; int N = n + 1, M = 1; for (int d = 0; d < D; d++) M *= N; vec x(N), v1(N), d1(N), pt(D), basis(M, 777.); for (int i = 0; i < N; i++) x[i] = anynodes ? sym_real("x") : -1 + 2. * i / n; if (anynodes) for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) sym_assume(x[i] != x[j]); for (auto &c : pt) c = sym_real("t");
  mat nodes(M, vec(D, 777.)), v(M, vec(D)), dv(M, vec(D)), part(M, vec(D, 777.)); e.basis_partials(nodes, x, v1, d1, v, dv, basis, part, pt, n);
  vec b[D], g[D]; E r; for (int d = 0; d < D; d++) { b[d] = vec(N); g[d] = vec(N); r.lagrange_1D(b[d], g[d], pt[d], x, n); }
  for (int m = 0; m < M; m++) { int ix[3] = {m % N, m / N % N, m / N / N}; double w = 1; for (int d = 0; d < D; d++) { sym_eq(nodes[m][d], x[ix[d]], "node-position"); w *= b[d][ix[d]]; } sym_eq(basis[m], w, "basis"); for (int d = 0; d < D; d++) { double q = 1; for (int k = 0; k < D; k++) q *= k == d ? g[k][ix[k]] : b[k][ix[k]]; sym_eq(part[m][d], q, "partial"); } } }
HARNESS(quad_tensor_any1) { tensor<QuadN, 2>(1, true); } HARNESS(quad_tensor_any2) { tensor<QuadN, 2>(2, true); } HARNESS(quad_tensor3) { tensor<QuadN, 2>(3, false); } HARNESS(hex_tensor_any1) { tensor<HexN, 3>(1, true); } HARNESS(hex_tensor2) { tensor<HexN, 3>(2, false); } HARNESS(quad_tensor_high) { tensor<QuadN, 2>(sym_pick("order", 4, 7), false); } HARNESS(hex_tensor4) { tensor<HexN, 3>(4, false); } HARNESS(hex_tensor3) { tensor<HexN, 3>(3, false); } THOROUGH_HARNESS(quad_tensor5) { tensor<QuadN, 2>(5, false); }
// the mapping is the sum of basis values times node positions in every coordinate, whatever x held before
template<class E, int D> void pos(int n) { E e; int N = n + 1, M = 1; for (int d = 0; d < D; d++) M *= N; mat nodes(M, vec(D)); vec b(M), x(D, 777.); for (auto &r : nodes) for (auto &c : r) c = sym_real("n"); for (auto &c : b) c = sym_real("b"); e.physical_position(x, nodes, b, n); for (int d = 0; d < D; d++) { double s = 0; for (int m = 0; m < M; m++) s += nodes[m][d] * b[m]; sym_eq(x[d], s, "position"); } }
HARNESS(quad_position) { pos<QuadN, 2>(sym_pick("order", 1, 8)); } HARNESS(hex_position) { pos<HexN, 3>(sym_pick("order", 1, 5)); }
template<class E, int D> void corn(int n) { E e; int N = n + 1, M = 1; for (int d = 0; d < D; d++) M *= N; mat nodes(M, vec(D)), c(1 << D, vec(D, 777.)); for (auto &r : nodes) for (auto &q : r) q = sym_real("n"); e.corners(nodes, c, n); for (int k = 0; k < (1 << D); k++) { int m = 0, s = 1; for (int d = 0; d < D; d++, s *= N) if (k >> d & 1) m += s * n; for (int d = 0; d < D; d++) sym_eq(c[k][d], nodes[m][d], "corner"); } }
HARNESS(quad_corners) { corn<QuadN, 2>(sym_pick("order", 1, 10)); } HARNESS(hex_corners) { corn<HexN, 3>(sym_pick("order", 1, 6)); }
