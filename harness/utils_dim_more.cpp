// Dimensioned arrays and points: larger dimensions, longer lists, other element types, text.
#include "sym.h"
#include <cassert>
#include <cstddef>
#include <array>
#include <vector>
#include <list>
#include <deque>
#include <initializer_list>
#include <iostream>
#include <sstream>
#include <cmath>
#include <ristra/utils/dimensioned_array.h>
#include <ristra/geometry/point.h>
#include <ristra/geometry/space_vector.h>
using std::size_t; namespace G = ristra::geometry;
template<class T, size_t N> using DA = ristra::utils::dimensioned_array__<T, N, 1>;
// one arbitrary component at a picked place, the others fixed
template<size_t N> void large() { size_t k = (size_t)sym_pick("k", 0, N - 1); double x = sym_real("x"), y = sym_real("y"), s = sym_real("s"); DA<double, N> a, b; for (size_t i = 0; i < N; i++) { a[i] = i * 0.5 - 3; b[i] = i * 0.25 + 1; } a[k] = x; b[k] = y; const DA<double, N> a0 = a, b0 = b; sym_assume(y != 0); sym_assume(s != 0); sym_assert(a.size() == N, "size");
#define OP(op, label) a = a0; a op b; for (size_t i = 0; i < N; i++) { double e = a0[i]; e op b0[i]; sym_eq(a[i], e, label "-array"); } a = a0; a op s; for (size_t i = 0; i < N; i++) { double e = a0[i]; e op s; sym_eq(a[i], e, label "-scalar"); sym_eq(b[i], b0[i], label "-kept"); }
  OP(+=, "plus") OP(-=, "minus") OP(*=, "times") OP(/=, "divide")
  auto p = a0 + b0, m = a0 - b0, d = a0 / s; for (size_t i = 0; i < N; i++) { sym_eq(p[i], a0[i] + b0[i], "sum"); sym_eq(m[i], a0[i] - b0[i], "difference"); sym_eq(d[i], a0[i] / s, "quotient"); } DA<double, N> c(s); for (size_t i = 0; i < N; i++) sym_eq(c[i], s, "fill"); c = a0; for (size_t i = 0; i < N; i++) sym_eq(c[i], a0[i], "copy"); c = y; for (size_t i = 0; i < N; i++) sym_eq(c[i], y, "assign-value"); }
HARNESS(dim4) { large<4>(); } HARNESS(dim8) { large<8>(); } HARNESS(dim17) { large<17>(); } HARNESS(dim64) { large<64>(); }
template<class T> void whole() { DA<T, 4> a, b; for (int i = 0; i < 4; i++) { a[i] = (T)sym_int("a"); b[i] = (T)sym_int("b"); } const auto a0 = a, b0 = b; auto p = a + b, m = a - b; a += b; for (int i = 0; i < 4; i++) { sym_assert(p[i] == (T)(a0[i] + b0[i]) && m[i] == (T)(a0[i] - b0[i]) && a[i] == p[i] && b[i] == b0[i], "whole"); } a = a0; a -= b0[2]; for (int i = 0; i < 4; i++) sym_assert(a[i] == (T)(a0[i] - b0[2]), "whole-scalar"); DA<T, 4> l{a0[3], a0[2], a0[1], a0[0]}; for (int i = 0; i < 4; i++) sym_assert(l[i] == a0[3 - i], "whole-list"); }
HARNESS(unsigneds) { whole<unsigned>(); } HARNESS(longs) { whole<unsigned long>(); } HARNESS(bytes) { whole<unsigned char>(); }
template<size_t N> void metric() { size_t k = (size_t)sym_pick("k", 0, N - 1); double x = sym_real("x"), y = sym_real("y"); G::point<double, N> p, q; G::space_vector<double, N> a, b; double d = 0, aa = 0, dot = 0; for (size_t i = 0; i < N; i++) { p[i] = i + 1.0; q[i] = 2.5 * i; a[i] = i - 1.5; b[i] = 3.0 - i; } p[k] = a[k] = x; q[k] = b[k] = y; for (size_t i = 0; i < N; i++) { d += (p[i] - q[i]) * (p[i] - q[i]); aa += a[i] * a[i]; dot += a[i] * b[i]; } double r = G::distance(p, q), m = G::magnitude(a); sym_le(0, r, "distance>=0"); sym_eq(r * r, d, "distance"); sym_le(0, m, "magnitude>=0"); sym_eq(m * m, aa, "magnitude"); sym_eq(G::dot(a, b), dot, "dot"); auto h = G::midpoint(p, q); auto t = G::operator*(a, y); auto v = G::point_to_vector(p); for (size_t i = 0; i < N; i++) { sym_eq(2 * h[i], p[i] + q[i], "midpoint"); sym_eq(t[i], a[i] * y, "scale"); sym_eq(v[i], p[i], "point-to-vector"); } }
HARNESS(metric4) { metric<4>(); } HARNESS(metric6) { metric<6>(); } HARNESS(metric12) { metric<12>(); } HARNESS(metric20) { metric<20>(); }
template<template<class...> class L, size_t N> void mean(int n) { int at = sym_pick("at", 0, 3); size_t w = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 2 : n - 1; L<G::point<double, N>> v; double s[N] = {}; int i = 0; for (; i < n; i++) { G::point<double, N> p; for (size_t k = 0; k < N; k++) { p[k] = (size_t)i == w ? sym_real("x") : i * 0.5 + k; s[k] += p[k]; } v.push_back(p); } auto c = G::centroid(v); for (size_t k = 0; k < N; k++) sym_near(c[k] * n, s[k], sym_native() ? 1e-9 * (1 + std::fabs(s[k])) : 0, "long-centroid"); }
HARNESS(mean_5) { mean<std::vector, 3>(5); } HARNESS(mean_9) { mean<std::list, 1>(9); } HARNESS(mean_17) { mean<std::deque, 2>(17); } HARNESS(mean_40) { mean<std::vector, 2>(40); } HARNESS(mean_300) { mean<std::vector, 3>(300); }
HARNESS(mean_list) { G::point<double, 3> p[7]; double s[3] = {}; for (auto &q : p) for (int k = 0; k < 3; k++) { q[k] = sym_real("p"); s[k] += q[k]; } auto c = G::centroid({p[0], p[1], p[2], p[3], p[4], p[5], p[6]}), d = G::centroid({p[2]}); for (int k = 0; k < 3; k++) { sym_eq(7 * c[k], s[k], "list-mean"); sym_eq(d[k], p[2][k], "mean-of-one"); } }
HARNESS(mid_int) { G::point<int, 3> p, q; for (int i = 0; i < 3; i++) { p[i] = sym_pick("p", 0, 2) * 7 - 6; q[i] = 2 * i - 3; } auto h = G::midpoint(p, q); for (int i = 0; i < 3; i++) sym_assert(h[i] == (p[i] + q[i]) / 2, "int-midpoint"); }
HARNESS(text) { DA<int, 3> a(sym_int_in("a", -12, 12), 7, sym_int_in("b", 0, 3)); std::ostringstream o, e; o << a << 5; e << "[ " << a[0] << " 7 " << a[2] << " ]5"; sym_assert(o.str() == e.str(), "text"); }

HARNESS(mean_listed) { typedef G::point<double, 2> P; P a; a[0] = sym_real("x"); a[1] = sym_real("y"); P b(1, 2); int first = sym_pick("first", 0, 1); P f = first ? a : b, l = first ? b : a; auto c = G::centroid({f, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, l}); sym_near(c[0], (a[0] + 17) / 18, 1e-9, "listed-centroid"); sym_near(c[1], (a[1] + 34) / 18, 1e-9, "listed-centroid"); }
