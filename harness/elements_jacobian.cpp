// Jacobians, their determinants and inverses, for every matrix.
#include "sym.h"
#include <vector>
#include <cmath>
#include <ristra/elements/elements.h>
using namespace ristra::elements; using vec = std::vector<double>; using mat = std::vector<vec>;
static double det(const mat &m, int n) { if (n == 1) return m[0][0]; double s = 0; for (int c = 0; c < n; c++) { mat k(n - 1, vec(n - 1)); for (int i = 1; i < n; i++) for (int j = 0, q = 0; j < n; j++) if (j != c) k[i - 1][q++] = m[i][j]; s += (c % 2 ? -1 : 1) * m[0][c] * det(k, n - 1); } return s; }
// each entry is the sum over the nodes of partial times coordinate
template<int D> void jac(int nodes, int rows) {
  mat v(nodes, vec(D)), p(nodes, vec(D)); for (auto &r : v) for (auto &c : r) c = sym_real("v"); for (auto &r : p) for (auto &c : r) c = sym_real("p");
  mat J(rows, vec(rows, 555.)); double d = 777; if (D == 4) jacobian4D(J, d, v, p, nodes, D); else jacobian(J, d, v, p, nodes, D);
  mat R(D, vec(D)); for (int j = 0; j < D; j++) for (int k = 0; k < D; k++) { double s = 0; for (int n = 0; n < nodes; n++) s += v[n][k] * p[n][j]; R[j][k] = s; sym_eq(J[j][k], s, "entry"); } sym_eq(d, det(R, D), "determinant"); }
HARNESS(jacobian2) { jac<2>(4, 3); } HARNESS(jacobian2_tight) { jac<2>(4, 2); } HARNESS(jacobian3) { jac<3>(4, 3); } HARNESS(jacobian4) { jac<4>(2, 4); }
THOROUGH_HARNESS(jacobian2_nodes8) { jac<2>(8, 2); }
// the determinant for every matrix: with one node per row, the partials select the entries
template<int D> void anydet() { mat v(D, vec(D)), p(D, vec(D, 0.)); for (auto &r : v) for (auto &c : r) c = sym_real("m"); for (int i = 0; i < D; i++) p[i][i] = 1; mat J(D < 3 ? 3 : D, vec(D < 3 ? 3 : D, 0.)); double d = 777; if (D == 4) jacobian4D(J, d, v, p, D, D); else jacobian(J, d, v, p, D, D); sym_eq(d, det(v, D), "determinant"); }
HARNESS(det2) { anydet<2>(); } HARNESS(det3) { anydet<3>(); } HARNESS(det4) { anydet<4>(); }
template<int D> void inv() { mat m(D, vec(D)); for (auto &r : m) for (auto &c : r) c = sym_real("m"); double d = det(m, D); sym_assume(d != 0); mat k(D, vec(D, 777.)); if (D == 2) jacobian_inverse_2d(k, m); else if (D == 3) jacobian_inverse_3d(k, m); else jacobian_inverse_4d(k, m, d);
  for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) { double s = 0, t = 0; for (int l = 0; l < D; l++) { s += k[i][l] * m[l][j]; t += m[i][l] * k[l][j]; } sym_eq(s, i == j, "inverse.J=I"); sym_eq(t, i == j, "J.inverse=I"); } }
HARNESS(inverse2) { inv<2>(); } HARNESS(inverse3) { inv<3>(); } HARNESS(inverse4) { inv<4>(); }
// as many nodes as the largest elements have: any one of them arbitrary, the others fixed
template<int D> void many(int nodes) { mat v(nodes, vec(D)), p(nodes, vec(D)); int k = sym_pick("node", 0, nodes - 1); for (int n = 0; n < nodes; n++) for (int d = 0; d < D; d++) { v[n][d] = n == k ? sym_real("v") : (n * 7 + d * 3) % 11 - 5; p[n][d] = n == k ? sym_real("p") : (n * 5 + d * d) % 7 - 3; }
  mat J(D, vec(D, 555.)); double d = 777; if (D == 4) jacobian4D(J, d, v, p, nodes, D); else jacobian(J, d, v, p, nodes, D); mat R(D, vec(D)); for (int j = 0; j < D; j++) for (int c = 0; c < D; c++) { double s = 0; for (int n = 0; n < nodes; n++) s += v[n][c] * p[n][j]; R[j][c] = s; sym_eq(J[j][c], s, "entry"); } sym_eq(d, det(R, D), "determinant"); }
HARNESS(many2) { many<2>(12); } HARNESS(many3) { many<3>(32); } HARNESS(many4) { many<4>(16); }
// tensor-product elements of higher order have more: thresholds in the number of nodes
template<int D> void more(int nodes) { mat v(nodes, vec(D)), p(nodes, vec(D)); int ks[] = {0, nodes / 2, nodes - 1}, k = ks[sym_pick("node", 0, 2)]; for (int n = 0; n < nodes; n++) for (int d = 0; d < D; d++) { v[n][d] = n == k ? sym_real("v") : (n * 7 + d * 3) % 11 - 5; p[n][d] = n == k ? sym_real("p") : (n * 5 + d * d) % 7 - 3; }
  mat J(D, vec(D, 555.)); double d = 777; if (D == 4) jacobian4D(J, d, v, p, nodes, D); else jacobian(J, d, v, p, nodes, D); mat R(D, vec(D)); for (int j = 0; j < D; j++) for (int c = 0; c < D; c++) { double s = 0; for (int n = 0; n < nodes; n++) s += v[n][c] * p[n][j]; R[j][c] = s; sym_eq(J[j][c], s, "entry"); } sym_eq(d, det(R, D), "determinant"); }
HARNESS(more2) { more<2>(sym_pick("n", 0, 1) ? 100 : 36); } HARNESS(more3) { more<3>(sym_pick("n", 0, 1) ? 216 : 64); } HARNESS(more4) { more<4>(sym_pick("n", 0, 1) ? 81 : 40); }
// the same matrices used again: nothing is left over
HARNESS(again3) { mat v(4, vec(3)), p(4, vec(3)); for (auto &r : v) for (auto &c : r) c = sym_real("v"); for (auto &r : p) for (auto &c : r) c = sym_real("p"); mat J(3, vec(3, sym_real("junk"))), K(3, vec(3, sym_real("junk"))); double d = sym_real("junk"), d2 = 0; jacobian(J, d, v, p, 4, 3); jacobian(J, d, v, p, 4, 3); jacobian(K, d2, v, p, 4, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_eq(J[i][j], K[i][j], "entry-again"); sym_eq(d, d2, "determinant-again"); }
