// A fixed-capacity vector against std::vector: one operation from any reachable state.
#include "sym.h"
#include <stdexcept>
#include <cstddef>
#include <iterator>
#include <limits>
#include <ristra/utils/fixed_vector.h>
#include <vector>
using ristra::utils::fixed_vector; using std::size_t;
// an element that is not trivially copyable: moved-from values are recognisable
struct box {
  int v; box() : v(-77) {} explicit box(int x) : v(x) {} box(const box &o) : v(o.v) {} box(box &&o) : v(o.v) { o.v = -88; }
  box &operator=(const box &o) { v = o.v; return *this; } box &operator=(box &&o) { int t = o.v; o.v = -88; v = t; return *this; } ~box() { v = -99; }
  bool operator==(const box &o) const { return v == o.v; }
};
template<class T> int val(const T &x) { if constexpr (std::is_same_v<T, box>) return x.v; else return x; }
constexpr int N = thorough ? 6 : 4;
template<class T> using FV = fixed_vector<T, N>; template<class T> using SV = std::vector<T>;
template<class T> void same(const FV<T> &f, const SV<T> &s) {
  sym_assert(f.size() == s.size(), "size"); sym_assert(f.empty() == s.empty(), "empty"); sym_assert(f.capacity() == N && f.max_size() == N, "capacity"); sym_assert(f.size() <= N, "size<=capacity");
  sym_assert(f.end() - f.begin() == (long)s.size() && f.cend() - f.cbegin() == (long)s.size(), "range");
  for (size_t i = 0; i < s.size(); i++) { sym_assert(val(f[i]) == val(s[i]), "element"); sym_assert(val(f.at(i)) == val(s[i]), "at"); sym_assert(val(f.begin()[i]) == val(s[i]), "iterator"); sym_assert(val(f.data()[i]) == val(s[i]), "data"); sym_assert(val(f.rbegin()[i]) == val(s[s.size() - 1 - i]), "reverse"); }
  if (!s.empty()) { sym_assert(val(f.front()) == val(s.front()), "front"); sym_assert(val(f.back()) == val(s.back()), "back"); sym_assert(f.rend() - f.rbegin() == (long)s.size(), "reverse-range"); }
  FV<T> &m = const_cast<FV<T> &>(f); for (size_t i = 0; i < s.size(); i++) sym_assert(&*(m.rbegin() + i) == &m[s.size() - 1 - i] && &*(f.crbegin() + i) == &f[s.size() - 1 - i] && &*(f.cbegin() + i) == &f[i] && m.data() + i == &m[i], "reverse-mutable"); sym_assert(m.rend() - m.rbegin() == (long)s.size() && f.crend() - f.crbegin() == (long)s.size() && m.end() - m.begin() == (long)s.size(), "reverse-mutable-range");
  bool t = false; try { (void)f.at(s.size()); } catch (const std::out_of_range &) { t = true; } sym_assert(t, "at-throws");
}
// any state: n live elements, with any stale elements behind them
template<class T> void state(FV<T> &f, SV<T> &s) {
  int n = sym_pick("n", 0, N), m = sym_pick("stale", 0, 1) ? N : n;
  for (int i = 0; i < m; i++) { T x(sym_int("x")); f.push_back(x); if (i < n) s.push_back(x); }
  for (int i = n; i < m; i++) f.pop_back();
}
template<class T> void ins_one() {
  FV<T> f; SV<T> s; state(f, s); sym_assume(s.size() < N); int p = sym_pick("pos", 0, N); sym_assume(p <= (int)s.size());
  int how = sym_pick("how", 0, 3 + s.size()); T x(sym_int("v")); typename FV<T>::iterator it;
  if (how == 0) { it = f.insert(f.cbegin() + p, x); s.insert(s.begin() + p, x); sym_assert(val(x) == val(s[p]), "argument-kept"); }
  else if (how == 1) { T y(x); it = f.insert(f.cbegin() + p, std::move(x)); s.insert(s.begin() + p, y); }
  else if (how == 2) { it = f.insert(f.cbegin() + p, {x}); s.insert(s.begin() + p, {x}); }
  else if (how == 3) { it = f.insert(f.cbegin() + p, 1, x); s.insert(s.begin() + p, 1, x); }
  else { int k = how - 4; it = f.insert(f.cbegin() + p, f[k]); T y(s[k]); s.insert(s.begin() + p, y); }   // a reference to one of its own elements
  sym_assert(it == f.begin() + p, "insert-returns"); same(f, s);
}
template<class T> void ins_many() {
  FV<T> f; SV<T> s; state(f, s); int p = sym_pick("pos", 0, N); sym_assume(p <= (int)s.size()); int c = sym_pick("count", 0, N); sym_assume(c + s.size() <= N);
  int how = sym_pick("how", 0, 3 + s.size()); typename FV<T>::iterator it; SV<T> src; for (int i = 0; i < c; i++) src.push_back(T(sym_int("v")));
  if (how == 0) { T x(sym_int("w")); it = f.insert(f.cbegin() + p, (size_t)c, x); s.insert(s.begin() + p, c, x); }
  else if (how == 1) { it = f.insert(f.cbegin() + p, src.begin(), src.end()); s.insert(s.begin() + p, src.begin(), src.end()); for (int i = 0; i < c; i++) sym_assert(val(src[i]) == val(s[p + i]), "source-kept"); }
  else if (how == 2) { it = f.insert(f.cbegin() + p, src.data(), src.data() + c); s.insert(s.begin() + p, src.begin(), src.end()); }
  else if (how == 3) { if (c == 2) { it = f.insert(f.cbegin() + p, {src[0], src[1]}); s.insert(s.begin() + p, src.begin(), src.end()); } else if (c == 0) { it = f.insert(f.cbegin() + p, std::initializer_list<T>{}); } else if (c == 3) { it = f.insert(f.cbegin() + p, {src[0], src[1], src[2]}); s.insert(s.begin() + p, src.begin(), src.end()); } else return; }
  else { int k = how - 4; it = f.insert(f.cbegin() + p, (size_t)c, f[k]); T y(s[k]); s.insert(s.begin() + p, c, y); }
  sym_assert(it == f.begin() + p, "insert-returns"); same(f, s);
}
template<class T> void ers() {
  FV<T> f; SV<T> s; state(f, s); int a = sym_pick("first", 0, N), b = sym_pick("last", 0, N + 1); sym_assume(a <= (int)s.size());
  if (b == N + 1) { sym_assume(a < (int)s.size()); auto it = f.erase(f.cbegin() + a); s.erase(s.begin() + a); sym_assert(it == f.begin() + a, "erase-returns"); }
  else { sym_assume(a <= b && b <= (int)s.size()); auto it = f.erase(f.cbegin() + a, f.cbegin() + b); s.erase(s.begin() + a, s.begin() + b); sym_assert(it == f.begin() + a, "erase-range-returns"); }
  same(f, s);
}
template<class T> void rest() {
  FV<T> f; SV<T> s; state(f, s); T x(sym_int("v")); int n = s.size();
  switch (sym_pick("op", 0, 16)) {
    case 0: sym_assume(n < N); f.push_back(x); s.push_back(x); break;
    case 1: sym_assume(n < N); { T y(x); f.push_back(std::move(y)); s.push_back(x); } break;
    case 2: sym_assume(n < N); f.emplace_back(val(x)); s.emplace_back(val(x)); break;
    case 3: f.pop_back(); if (n) s.pop_back(); break;
    case 4: f.clear(); s.clear(); break;
    case 5: { int c = sym_pick("count", 0, N); f.resize(c, x); s.resize(c, x); break; }
    case 6: { int c = sym_pick("count", 0, N); f.resize(c); s.resize(c); FV<T> g((size_t)c); same(g, SV<T>(c)); break; }
    case 7: { int c = sym_pick("count", 0, N); f.assign((size_t)c, x); s.assign(c, x); break; }
    case 8: { SV<T> src; int c = sym_pick("count", 0, N); for (int i = 0; i < c; i++) src.push_back(T(sym_int("w"))); f.assign(src.begin(), src.end()); s = src; break; }
    case 9: f.assign({x, x}); s.assign({x, x}); break;
    case 10: { FV<T> g(f); same(g, s); same(f, s); FV<T> h(std::move(g)); same(h, s); break; }
    case 11: { FV<T> g; g.push_back(x); g = f; same(g, s); if (n) { g[0] = x; } same(f, s); break; }
    case 12: { FV<T> g; SV<T> t; int c = sym_pick("count", 0, N); for (int i = 0; i < c; i++) { T y(sym_int("w")); g.push_back(y); t.push_back(y); } f.swap(g); s.swap(t); same(g, t); break; }
    case 13: { FV<T> g; SV<T> t; int c = sym_pick("count", 0, N); for (int i = 0; i < c; i++) { T y(sym_int("w")); g.push_back(y); t.push_back(y); } sym_assert((f == g) == (s == t), "equality"); break; }
    case 14: { FV<T> g(f.begin(), f.end()); same(g, s); FV<T> h{x, x, x}; same(h, SV<T>{x, x, x}); FV<T> k((size_t)N, x); same(k, SV<T>(N, x)); break; }
    case 15: { if (n) { int k = sym_pick("k", 0, N); sym_assume(k < n); f[k] = x; s[k] = x; same(f, s); f.at(k) = T(7); s[k] = T(7); same(f, s); f.front() = x; s.front() = x; f.back() = T(9); s.back() = T(9); same(f, s); *(f.begin() + k) = x; s[k] = x; f.data()[0] = x; s[0] = x; } break; }
    case 16: { FV<T> g; g = std::move(f); same(g, s); return; }
  }
  same(f, s);
}
HARNESS(insert_one_int) { ins_one<int>(); } HARNESS(insert_one_box) { ins_one<box>(); }
HARNESS(insert_many_int) { ins_many<int>(); } HARNESS(insert_many_box) { ins_many<box>(); }
HARNESS(erase_int) { ers<int>(); } HARNESS(erase_box) { ers<box>(); }
HARNESS(rest_int) { rest<int>(); } HARNESS(rest_box) { rest<box>(); }

// its own elements as arguments
template<class T> void own() {
  FV<T> f; SV<T> s; state(f, s); int n = s.size(), k = sym_pick("k", 0, N - 1); sym_assume(k < n); T y(s[k]);
  switch (sym_pick("op", 0, 4)) {
    case 0: sym_assume(n < N); f.push_back(f[k]); s.push_back(y); break;
    case 1: { int c = sym_pick("count", 0, N); f.assign((size_t)c, f[k]); s.assign(c, y); break; }
    case 2: { int c = sym_pick("count", 0, N); f.resize(c, f[k]); s.resize(c, y); break; }
    case 3: { FV<T> &g = f; f = g; break; }
    case 4: { FV<T> g(f); sym_assert(f == g && g == f && f == f, "equal-copy"); f.swap(f); break; }
  }
  same(f, s);
}
HARNESS(own_int) { own<int>(); } HARNESS(own_box) { own<box>(); }
// large and smallest capacities, other element types
template<class T, size_t M> void eq(const fixed_vector<T, M> &f, const std::vector<T> &s, const char *) { sym_assert(f.size() == s.size() && f.capacity() == M, "large-size"); for (size_t i = 0; i < s.size(); i++) sym_assert(f[i] == s[i], "large-element"); }
template<class T, size_t M> void large() {
  static const int at[] = {0, 1, 64, 127, 128, 200, 254, 255, 256}; size_t p = at[sym_pick("at", 0, 8)]; int op = sym_pick("op", 0, 7); fixed_vector<T, M> f; std::vector<T> s; size_t n = op == 5 ? M : 260; for (size_t i = 0; i < n; i++) { f.push_back((T)(i + 1)); s.push_back((T)(i + 1)); } T x = (T)sym_int("x"); f[p] = x; s[p] = x; eq(f, s, "");
  switch (op) {
    case 0: sym_assert(f.insert(f.cbegin() + p, (T)7) == f.begin() + p, "large-insert"); s.insert(s.begin() + p, (T)7); break;
    case 1: sym_assert(f.erase(f.cbegin() + p) == f.begin() + p, "large-erase"); s.erase(s.begin() + p); break;
    case 2: f.insert(f.cbegin() + p, (size_t)30, x); s.insert(s.begin() + p, 30, x); break;
    case 3: f.erase(f.cbegin() + p, f.cend()); s.erase(s.begin() + p, s.end()); break;
    case 4: f.resize(p); s.resize(p); eq(f, s, ""); f.resize(290, x); s.resize(290, x); break;
    case 5: { fixed_vector<T, M> g; g = f; eq(g, s, ""); sym_assert(g == f, "large-equal"); g[p] = (T)(x + 1); sym_assert(!(g == f), "large-differ"); f.swap(g); eq(g, s, ""); sym_assert(f[p] == (T)(x + 1) && f.size() == M && f.back() == (p == M - 1 ? (T)(x + 1) : (T)M), "large-swap"); return; }
    case 6: f.assign((size_t)280, x); s.assign(280, x); eq(f, s, ""); f.assign(s.begin(), s.begin() + p); s.resize(p); break;
    case 7: { fixed_vector<T, M> g(f); eq(g, s, ""); while (f.size() > p) f.pop_back(); s.resize(p); fixed_vector<T, M> h(g.begin() + p, g.end()); sym_assert(h.size() == 260 - p && h[0] == x, "large-range"); break; }
  }
  eq(f, s, "");
}
HARNESS(large_int) { large<int, 300>(); } HARNESS(large_char) { large<unsigned char, 300>(); }
HARNESS(one_element) { fixed_vector<double, 1> f, g; double x = sym_real("x"), y = sym_real("y"); sym_assert(f.empty() && f == g && f.begin() == f.end(), "one-empty"); f.insert(f.cbegin(), x); g.emplace_back(y); sym_assert(f.size() == 1 && &f.front() == &f.back(), "one"); sym_eq(f[0], x, "one-value"); f.swap(g); sym_eq(f[0], y, "one-swap"); sym_eq(g.at(0), x, "one-swap"); sym_assert(f.erase(f.cbegin()) == f.end() && f.empty(), "one-erase"); sym_assert(!(f == g), "one-differ"); }
// checked access with any index whatsoever, through a constant and a mutable vector
HARNESS(at_any_index) { int n = sym_pick("n", 0, N); FV<int> f; for (int i = 0; i < n; i++) f.push_back(10 + i); const FV<int> &c = f; size_t i = sym_bits("i", 64); bool t = false; const int *p = nullptr; try { p = &f.at(i); } catch (const std::out_of_range &) { t = true; } sym_assert(t == (i >= (size_t)n), "at-any"); if (!t && i < (size_t)n) sym_assert(p == f.data() + i, "at-any-element");
  t = false; try { p = &c.at(i); } catch (const std::out_of_range &) { t = true; } sym_assert(t == (i >= (size_t)n), "at-any-const"); if (!t && i < (size_t)n) sym_assert(p == f.data() + i, "at-any-const-element"); }
