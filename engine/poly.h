// Multivariate polynomials / rational functions over Q, used as the encoding of
// floating-point values in exact real arithmetic.
#pragma once
#include <gmpxx.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <cmath>
#include <cstring>
#include <cstdint>

using Q = mpq_class;
using Mono = std::vector<std::pair<uint32_t, uint32_t>>; // (var, exp) sorted by var

struct Poly {
  std::map<Mono, Q> t;
  Poly() {}
  Poly(const Q &q) { if (q != 0) t[Mono()] = q; }
  static Poly var(uint32_t v) { Poly p; p.t[Mono{{v, 1}}] = 1; return p; }
  bool isZero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size() == 1 && t.begin()->first.empty()); }
  Q cst() const { return t.empty() ? Q(0) : t.begin()->second; }
  bool operator==(const Poly &o) const { return t == o.t; }
  bool operator!=(const Poly &o) const { return !(t == o.t); }
};

// sqrt variables: v*v -> poly
extern std::map<uint32_t, Poly> g_sqrtDef;

inline Mono mulMono(const Mono &a, const Mono &b) {
  Mono r; r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) {
    if (a[i].first < b[j].first) r.push_back(a[i++]);
    else if (a[i].first > b[j].first) r.push_back(b[j++]);
    else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; }
  }
  while (i < a.size()) r.push_back(a[i++]);
  while (j < b.size()) r.push_back(b[j++]);
  return r;
}
inline void addTerm(Poly &p, const Mono &m, const Q &q) {
  if (q == 0) return;
  auto it = p.t.find(m);
  if (it == p.t.end()) p.t.emplace(m, q);
  else { it->second += q; if (it->second == 0) p.t.erase(it); }
}
inline Poly operator+(const Poly &a, const Poly &b) {
  Poly r = a; for (auto &k : b.t) addTerm(r, k.first, k.second); return r;
}
inline Poly operator-(const Poly &a) { Poly r; for (auto &k : a.t) r.t.emplace(k.first, -k.second); return r; }
inline Poly operator-(const Poly &a, const Poly &b) {
  Poly r = a; for (auto &k : b.t) addTerm(r, k.first, -k.second); return r;
}
Poly reduceSqrt(const Poly &p);
inline Poly operator*(const Poly &a, const Poly &b) {
  Poly r;
  for (auto &x : a.t) for (auto &y : b.t) addTerm(r, mulMono(x.first, y.first), x.second * y.second);
  return g_sqrtDef.empty() ? r : reduceSqrt(r);
}
inline Poly reduceSqrt(const Poly &p) {
  bool need = false;
  for (auto &k : p.t) for (auto &m : k.first) if (m.second >= 2 && g_sqrtDef.count(m.first)) need = true;
  if (!need) return p;
  Poly r;
  for (auto &k : p.t) {
    Mono rest; Poly f(k.second);
    for (auto &m : k.first) {
      auto it = g_sqrtDef.find(m.first);
      if (m.second >= 2 && it != g_sqrtDef.end()) {
        for (uint32_t i = 0; i < m.second / 2; i++) f = f * it->second;
        if (m.second % 2) rest.push_back({m.first, 1});
      } else rest.push_back(m);
    }
    Poly rm; rm.t[rest] = 1;
    // multiply without re-reducing loops: f may itself hold sqrt vars; f*rm handles it
    r = r + f * rm;
  }
  return r;
}
inline Poly scale(const Poly &a, const Q &q) {
  Poly r; if (q == 0) return r; for (auto &k : a.t) r.t.emplace(k.first, k.second * q); return r;
}
// exact division; returns false if not divisible
inline bool monoDiv(const Mono &a, const Mono &b, Mono &r) {
  r.clear(); size_t i = 0;
  for (auto &m : b) {
    while (i < a.size() && a[i].first < m.first) r.push_back(a[i++]);
    if (i >= a.size() || a[i].first != m.first || a[i].second < m.second) return false;
    if (a[i].second > m.second) r.push_back({m.first, a[i].second - m.second});
    i++;
  }
  while (i < a.size()) r.push_back(a[i++]);
  return true;
}
// monomial order: need an admissible order. Use graded + lex on dense exponents.
inline bool monoLess(const Mono &a, const Mono &b) {
  uint64_t da = 0, db = 0;
  for (auto &m : a) da += m.second;
  for (auto &m : b) db += m.second;
  if (da != db) return da < db;
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) {
    if (a[i].first != b[j].first) return a[i].first > b[j].first; // smaller var index = larger
    if (a[i].second != b[j].second) return a[i].second < b[j].second;
    i++; j++;
  }
  return i >= a.size() && j < b.size();
}
inline bool exactDiv(Poly a, const Poly &b, Poly &q) {
  q = Poly();
  if (b.isZero()) return false;
  const Mono *lb = nullptr;
  for (auto &k : b.t) if (!lb || monoLess(*lb, k.first)) lb = &k.first;
  Q cb = b.t.at(*lb);
  Mono lbm = *lb;
  size_t guard = 0;
  while (!a.isZero()) {
    if (++guard > 4000) return false;
    const Mono *la = nullptr;
    for (auto &k : a.t) if (!la || monoLess(*la, k.first)) la = &k.first;
    Mono d;
    if (!monoDiv(*la, lbm, d)) return false;
    Q c = a.t.at(*la) / cb;
    Poly term; term.t[d] = c;
    addTerm(q, d, c);
    // plain (non-reducing) product
    for (auto &y : b.t) addTerm(a, mulMono(d, y.first), -(c * y.second));
  }
  return true;
}

struct Real {
  bool fin = true;
  Poly n, d = Poly(Q(1));
};
using RealP = std::shared_ptr<const Real>;

// the simplest rational that rounds to v, if its denominator is small; else v exactly
inline Q rationalize(double v) {
  if (v == std::floor(v) && std::fabs(v) < 1e15) return Q(v);
  double x = v;
  // continued fraction
  mpz_class h0 = 0, h1 = 1, k0 = 1, k1 = 0;
  Q r(v);
  Q cur = r;
  for (int i = 0; i < 24; i++) {
    mpz_class a;
    mpz_fdiv_q(a.get_mpz_t(), cur.get_num().get_mpz_t(), cur.get_den().get_mpz_t());
    mpz_class h2 = a * h1 + h0, k2 = a * k1 + k0;
    h0 = h1; h1 = h2; k0 = k1; k1 = k2;
    if (k1 > 20000) break;
    // correctly rounded comparison: |h/k - v| small enough that h/k rounds to v
    Q cand(h1, k1); cand.canonicalize();
    double hd = h1.get_d(), kd = k1.get_d();
    if (hd / kd == x) return cand;
    Q fr = cur - Q(a);
    if (fr == 0) break;
    cur = 1 / fr;
  }
  return r;
}
inline double qToDouble(const Q &q) {
  // nearest: num/den when both are exactly representable, else mpq (truncates) refined
  if (mpz_sizeinbase(q.get_num().get_mpz_t(), 2) <= 53 && mpz_sizeinbase(q.get_den().get_mpz_t(), 2) <= 53)
    return q.get_num().get_d() / q.get_den().get_d();
  double d = q.get_d(); // truncation toward zero
  double up = std::nextafter(d, d >= 0 ? INFINITY : -INFINITY);
  if (d == 0) return d;
  Q e1 = abs(q - Q(d)), e2 = abs(q - Q(up));
  return e2 < e1 ? up : d;
}
