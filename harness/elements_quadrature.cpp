// Quadrature rules integrate every polynomial up to their degree; coefficients are arbitrary within [-1,1].
#include "sym.h"
#include <vector>
#include <cmath>
#include <ristra/elements/elements.h>
using namespace ristra::elements; using vec = std::vector<double>; using mat = std::vector<vec>;
static double exact(int k) { return k % 2 ? 0 : 2. / (k + 1); }
static double pw(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }
static double coef() { double c = sym_real("c"); sym_assume(c >= -1); sym_assume(c <= 1); return c; }
// degree: 2p-1 for Gauss, 2p-3 for Lobatto
static void line(bool lob, int p) {
  int deg = lob ? (p == 1 ? 1 : 2 * p - 3) : 2 * p - 1; vec x(p), w(p); for (int i = 0; i < p; i++) { int m = i + 1, q = p; double a = 777, b = 777; lob ? LineLobattoRuleInfo(a, b, m, q) : LineGaussRuleInfo(a, b, m, q); x[i] = a; w[i] = b; }
  double f = 0; for (int k = 0; k <= deg; k++) { double c = coef(), s = 0; for (int i = 0; i < p; i++) s += w[i] * pw(x[i], k); f += c * (s - exact(k)); }
  sym_near(f, 0, 1e-13, "exact-on-polynomials"); for (int i = 0; i < p; i++) { sym_assert(w[i] > 0, "positive-weight"); sym_assert(x[i] >= -1 && x[i] <= 1, "inside"); sym_near(x[i], -x[p - 1 - i], 1e-13, "symmetric"); for (int j = 0; j < i; j++) sym_assert(x[i] != x[j], "distinct"); }
  if (lob && p > 1) { bool a = false, b = false; for (double t : x) { a |= t == -1; b |= t == 1; } sym_assert(a && b, "includes-ends"); } }
HARNESS(gauss_line) { line(false, sym_pick("p", 1, 8)); } HARNESS(lobatto_line) { line(true, sym_pick("p", 1, 8)); }
// tensor rules: the weights of a point are those of its coordinates on the line, and every combination occurs
template<int D> void tensor(bool lob, int p, int full) {
  int M = 1; for (int d = 0; d < D; d++) M *= p; mat g(M, vec(D, 777.)), w(M, vec(D, 777.)); vec t(M, 777.); int q = p;
  if (D == 2) lob ? Lobatto2D(g, w, q) : Gauss2D(g, w, t, q); if (D == 3) lob ? Lobatto3D(g, w, q) : Gauss3D(g, w, t, q); if (D == 4) lob ? Lobatto4D(g, w, q, D) : Gauss4D(g, w, q, D);
  sym_assert(q == p, "order-unchanged"); bool total = !lob && D < 4; for (int m = 0; m < M; m++) { double k = 1; for (int d = 0; d < D; d++) k *= w[m][d]; if (total) sym_eq(t[m], k, "total-weight"); t[m] = k; }
  int deg = lob ? (p == 1 ? 1 : 2 * p - 3) : 2 * p - 1, lim = full < deg ? full : deg; double f = 0; int e[4]; int n = 1; for (int d = 0; d < D; d++) n *= lim + 1;
  mat pow_(M); for (int a = 0; a < n; a++) { int r = a; double ex = 1; for (int d = 0; d < D; d++) { e[d] = r % (lim + 1); r /= lim + 1; ex *= exact(e[d]); } double s = 0; for (int m = 0; m < M; m++) { double v = t[m]; for (int d = 0; d < D; d++) v *= pw(g[m][d], e[d]); s += v; } f += coef() * (s - ex); }
  for (int d = 0; d < D; d++) for (int k = lim + 1; k <= deg; k++) { double s = 0, ex = exact(k); for (int z = 1; z < D; z++) ex *= 2; for (int m = 0; m < M; m++) s += t[m] * pw(g[m][d], k); f += coef() * (s - ex); }
  sym_near(f, 0, 1e-11, "exact-on-polynomials");
  // each point's weight along an axis is the weight of the line rule at that coordinate
  for (int m = 0; m < M; m++) for (int d = 0; d < D; d++) { bool hit = false; for (int i = 1; i <= p; i++) { int a = i, b = p; double x = 0, v = 0; lob ? LineLobattoRuleInfo(x, v, a, b) : LineGaussRuleInfo(x, v, a, b); if (x == g[m][d]) { hit = true; sym_eq(w[m][d], v, "axis-weight"); } } sym_assert(hit, "on-line-rule"); }
}
HARNESS(gauss2) { tensor<2>(false, sym_pick("p", 1, thorough ? 8 : 4), 15); } HARNESS(gauss2_high) { tensor<2>(false, sym_pick("p", 5, 8), 3); } HARNESS(lobatto2) { tensor<2>(true, sym_pick("p", 1, thorough ? 8 : 4), 15); } HARNESS(lobatto2_high) { tensor<2>(true, sym_pick("p", 5, 8), 3); }
HARNESS(gauss3) { tensor<3>(false, sym_pick("p", 1, 4), thorough ? 5 : 3); } HARNESS(lobatto3) { tensor<3>(true, sym_pick("p", 1, 4), thorough ? 5 : 3); } THOROUGH_HARNESS(gauss3_high) { tensor<3>(false, sym_pick("p", 5, 8), 2); } THOROUGH_HARNESS(lobatto3_high) { tensor<3>(true, sym_pick("p", 5, 8), 2); }
// every combination of the points of the line rule occurs exactly once, with its weights
template<int D> void combos(bool lob, int p) {
  int M = 1; for (int d = 0; d < D; d++) M *= p; mat g(M, vec(D, 777.)), w(M, vec(D, 777.)); vec t(M, 777.), x(p), v(p); int q = p; for (int i = 0; i < p; i++) { int a = i + 1, b = p; lob ? LineLobattoRuleInfo(x[i], v[i], a, b) : LineGaussRuleInfo(x[i], v[i], a, b); }
  if (D == 2) lob ? Lobatto2D(g, w, q) : Gauss2D(g, w, t, q); if (D == 3) lob ? Lobatto3D(g, w, q) : Gauss3D(g, w, t, q); if (D == 4) lob ? Lobatto4D(g, w, q, D) : Gauss4D(g, w, q, D);
  std::vector<int> seen(M, 0); for (int m = 0; m < M; m++) { int at = 0; double k = 1; for (int d = 0; d < D; d++) { int h = -1; for (int i = 0; i < p; i++) if (x[i] == g[m][d]) h = i; sym_assert(h >= 0, "on-line-rule"); if (h < 0) return; sym_eq(w[m][d], v[h], "axis-weight"); at = at * p + h; k *= v[h]; } if (!lob && D < 4) sym_near(t[m], k, 1e-15, "total-weight"); seen[at]++; } for (int m = 0; m < M; m++) sym_assert(seen[m] == 1, "each-combination-once"); }
HARNESS(gauss2_combos) { combos<2>(false, sym_pick("p", 1, 8)); } HARNESS(lobatto2_combos) { combos<2>(true, sym_pick("p", 1, 8)); } HARNESS(gauss3_combos) { combos<3>(false, sym_pick("p", 1, 8)); } HARNESS(lobatto3_combos) { combos<3>(true, sym_pick("p", 1, 8)); } HARNESS(gauss4_combos) { combos<4>(false, sym_pick("p", 1, 6)); } HARNESS(lobatto4_combos) { combos<4>(true, sym_pick("p", 1, 6)); } HARNESS(gauss4_combos7) { combos<4>(false, 7); } HARNESS(lobatto4_combos7) { combos<4>(true, 7); } HARNESS(gauss4_combos8) { combos<4>(false, 8); } HARNESS(lobatto4_combos8) { combos<4>(true, 8); }
HARNESS(gauss4) { tensor<4>(false, sym_pick("p", 1, 2), 3); } HARNESS(gauss4_three) { tensor<4>(false, 3, 2); } HARNESS(lobatto4) { tensor<4>(true, sym_pick("p", 1, 3), 2); } THOROUGH_HARNESS(gauss4_four) { tensor<4>(false, 4, 2); } THOROUGH_HARNESS(lobatto4_four) { tensor<4>(true, 4, 2); }
