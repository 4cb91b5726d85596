// multi_array / array element addressing: every index tuple names one element,
// row-major, and the checked accessors reject exactly the tuples out of range.
#include "sym.h"
#include <ristra/math/array.h>
#include <ristra/math/multi_array.h>
#include <stdexcept>
using namespace ristra::math;
template<std::size_t... N> struct shape {
  using A = multi_array<int, N...>;
  static constexpr std::size_t D = sizeof...(N);
  static constexpr std::size_t dims[D] = {N...};
  static std::size_t flat(const std::size_t *i) { std::size_t r = 0; for (std::size_t k = 0; k < D; k++) r = r * dims[k] + i[k]; return r; }
};
template<std::size_t... N> constexpr std::size_t shape<N...>::dims[];
template<class A, std::size_t... K> int &at_(A &a, const std::size_t *i, std::index_sequence<K...>) { return a.at(i[K]...); }
template<class A, std::size_t... K> const int &cat_(const A &a, const std::size_t *i, std::index_sequence<K...>) { return a.at(i[K]...); }
template<class A, std::size_t... K> int &call_(A &a, const std::size_t *i, std::index_sequence<K...>) { return a(i[K]...); }
template<class A, std::size_t... K> const int &ccall_(const A &a, const std::size_t *i, std::index_sequence<K...>) { return a(i[K]...); }
template<class A, std::size_t... K> std::size_t elem_(const std::size_t *i, std::index_sequence<K...>) { return A::element(i[K]...); }
template<std::size_t... N> void index() {
  using S = shape<N...>; using A = typename S::A; constexpr std::size_t D = S::D; auto seq = std::make_index_sequence<D>{};
  A a; for (std::size_t i = 0; i < a.size(); i++) a[i] = 100 + i; // distinct values name the storage position
  const A &ca = a;
  std::size_t n = 1; for (std::size_t k = 0; k < D; k++) n *= S::dims[k];
  sym_assert(A::size() == n && A::num_elements() == n && A::num_dimensions() == D, "size");
  std::size_t st = 1; for (std::size_t k = D; k-- > 0;) { sym_assert(A::strides()[k] == st, "strides"); sym_assert(A::shape()[k] == S::dims[k], "shape"); st *= S::dims[k]; }
  std::size_t i[D]; bool in = true;
  for (std::size_t k = 0; k < D; k++) { i[k] = sym_bits("i", 64); sym_assume(i[k] < 8); in = in & (i[k] < S::dims[k]); }
  bool threw = false; int v = 0;
  try { v = at_(a, i, seq); } catch (const std::out_of_range &) { threw = true; }
  sym_assert(threw == !in, "at-range");
  bool cthrew = false; int cv = 0;
  try { cv = cat_(ca, i, seq); } catch (const std::out_of_range &) { cthrew = true; }
  sym_assert(cthrew == !in, "const-at-range");
  if (!threw && in) {
    std::size_t f = S::flat(i);
    sym_assert(v == (int)(100 + f), "at-value"); sym_assert(cv == (int)(100 + f), "const-at-value");
    sym_assert(call_(a, i, seq) == (int)(100 + f), "call-value"); sym_assert(ccall_(ca, i, seq) == (int)(100 + f), "const-call-value");
    sym_assert(elem_<A>(i, seq) == f, "element");
    std::size_t j[D]; for (std::size_t k = 0; k < D; k++) j[k] = i[k];
    sym_assert(a[j] == (int)(100 + f) && ca[j] == (int)(100 + f), "bracket-tuple");
    call_(a, i, seq) = 7; for (std::size_t q = 0; q < n; q++) sym_assert(a[q] == (q == f ? 7 : (int)(100 + q)), "write-one");
    at_(a, i, seq) = 9; for (std::size_t q = 0; q < n; q++) sym_assert(a[q] == (q == f ? 9 : (int)(100 + q)), "write-at");
  }
}
HARNESS(n5) { index<5>(); } HARNESS(n2x3) { index<2, 3>(); } HARNESS(n3x2) { index<3, 2>(); } HARNESS(n1x4) { index<1, 4>(); } HARNESS(n4x1) { index<4, 1>(); } HARNESS(n3x3) { index<3, 3>(); }
HARNESS(n2x3x2) { index<2, 3, 2>(); } HARNESS(n3x2x4) { index<3, 2, 4>(); } THOROUGH_HARNESS(n2x3x2x2) { index<2, 3, 2, 2>(); } THOROUGH_HARNESS(n4x5x3) { index<4, 5, 3>(); } THOROUGH_HARNESS(n6x7) { index<6, 7>(); }
template<std::size_t N> void arr() {
  array<int, N> a; for (std::size_t i = 0; i < N; i++) a[i] = 100 + i; const auto &ca = a;
  std::size_t i = sym_bits("i", 64); bool threw = false, ct = false; int v = 0, cv = 0;
  try { v = a.at(i); } catch (const std::out_of_range &) { threw = true; }
  try { cv = ca.at(i); } catch (const std::out_of_range &) { ct = true; }
  sym_assert(threw == (i >= N), "array-at-range"); sym_assert(ct == (i >= N), "array-const-at-range");
  if (i < N) { sym_assert(v == (int)(100 + i) && cv == v, "array-at-value"); sym_assert(a[i] == v && a(i) == v && ca[i] == v && ca(i) == v, "array-index"); }
}
HARNESS(array1) { arr<1>(); } HARNESS(array3) { arr<3>(); } HARNESS(array8) { arr<8>(); }
// negative signed indices are out of range too
HARNESS(signed_index) {
  multi_array<int, 2, 3> a(0); long i = sym_long("i"), j = sym_long("j"); bool in = i >= 0 && i < 2 && j >= 0 && j < 3, t = false;
  try { a.at((std::size_t)i, (std::size_t)j); } catch (const std::out_of_range &) { t = true; }
  sym_assert(t == !in, "at-range-any");
}
// indices of other types mean the same element or are refused
template<class I> void typed(const char *) {
  multi_array<int, 2, 3> a; for (int k = 0; k < 6; k++) a[k] = 100 + k; const auto &c = a; multi_array<int, 4> o; for (int k = 0; k < 4; k++) o[k] = k; array<int, 3> v{0, 1, 2};
  I i = (I)sym_bits("i", 8 * sizeof(I)), j = (I)sym_bits("j", 8 * sizeof(I)); bool in = i >= 0 && i < 2 && j >= 0 && j < 3, t = false, ct = false, t1 = false, t2 = false; int x = 0, y = 0;
  try { x = a.at(i, j); } catch (const std::out_of_range &) { t = true; } try { y = c.at(i, j); } catch (const std::out_of_range &) { ct = true; }
  sym_assert(t == !in && ct == !in, "typed-range"); try { o.at(i); } catch (const std::out_of_range &) { t1 = true; } sym_assert(t1 == !(i >= 0 && i < 4), "typed-range-1"); try { v.at(i); } catch (const std::out_of_range &) { t2 = true; } sym_assert(t2 == !(i >= 0 && i < 3), "typed-range-array");
  if (in) { int e = 100 + 3 * (int)i + (int)j; sym_assert(x == e && y == e && a(i, j) == e && c(i, j) == e, "typed-value"); I id[2] = {i, j}; sym_assert((int)multi_array<int, 2, 3>::element(id) == e - 100, "typed-element"); }
}
HARNESS(index_int) { typed<int>("int"); } HARNESS(index_short) { typed<short>("short"); } HARNESS(index_uchar) { typed<unsigned char>("uchar"); } HARNESS(index_long) { typed<long>("long"); } HARNESS(index_unsigned) { typed<unsigned>("unsigned"); }
HARNESS(index_mixed) { multi_array<int, 3, 4> a; for (int k = 0; k < 12; k++) a[k] = k; int i = sym_int("i"); std::size_t j = sym_bits("j", 64); bool in = i >= 0 && i < 3 && j < 4, t = false; int x = 0; try { x = a.at(i, j); } catch (const std::out_of_range &) { t = true; } sym_assert(t == !in, "mixed-range"); if (in) { sym_assert(x == i * 4 + (int)j && a(i, j) == x, "mixed-value"); } }
// iteration, both ends and raw access cover exactly the elements
template<class A> void cover(std::size_t n) {
  A a; const A &c = a; std::size_t k = 0; for (auto p = a.begin(); p != a.end(); ++p, ++k) { sym_assert(&*p == &a[k] && k < n, "begin-end"); *p = (typename A::value_type)(k + 1); } sym_assert(k == n, "begin-end-count");
  k = 0; for (auto p = c.begin(); p != c.end(); ++p, ++k) sym_assert(&*p == &a[k], "const-begin-end"); sym_assert(k == n, "const-count"); k = 0; for (auto p = c.cbegin(); p != c.cend(); ++p, ++k) sym_assert(&*p == &a[k], "cbegin-cend"); sym_assert(k == n, "c-count");
  k = n; for (auto p = a.rbegin(); p != a.rend(); ++p) { --k; sym_assert(&*p == &a[k], "rbegin-rend"); } sym_assert(k == 0, "r-count"); k = n; for (auto p = c.rbegin(); p != c.rend(); ++p) { --k; sym_assert(&*p == &a[k], "const-rbegin"); } sym_assert(k == 0, "cr-count"); k = n; for (auto p = c.crbegin(); p != c.crend(); ++p) { --k; sym_assert(&*p == &a[k], "crbegin"); } sym_assert(k == 0, "ccr-count");
  sym_assert(&a.front() == &a[0] && &c.front() == &a[0] && &a.back() == &a[n - 1] && &c.back() == &a[n - 1] && a.data() == &a[0] && c.data() == &a[0] && a.c_array() == &a[0] && &c[n - 1] == &a[n - 1], "ends-and-data"); sym_assert(A::size() == n && sizeof(A) == n * sizeof(typename A::value_type), "exact-size");
}
HARNESS(cover_array) { cover<array<int, 1>>(1); cover<array<double, 5>>(5); cover<array<char, 300>>(300); sym_assert(!array<int, 3>::empty() && array<int, 3>::max_size() == 3 && array<int, 3>::capacity() == 3, "array-capacity"); }
HARNESS(cover_multi) { cover<multi_array<int, 1>>(1); cover<multi_array<double, 2, 3>>(6); cover<multi_array<short, 3, 1, 2>>(6); cover<multi_array<int, 12, 23>>(276); cover<multi_array<int, 2, 2, 2, 2, 2>>(32); }
// large extents: every element, by its index tuple
HARNESS(large) {
  static multi_array<int, 20, 30> a; const auto &c = a; std::size_t i = sym_bits("i", 64), j = sym_bits("j", 64); bool in = i < 20 && j < 30, t = false, ct = false; const int *x = nullptr, *y = nullptr; try { x = &a.at(i, j); } catch (const std::out_of_range &) { t = true; } try { y = &c.at(i, j); } catch (const std::out_of_range &) { ct = true; } sym_assert(t == !in && ct == !in, "large-range");
  if (in) { std::size_t f = 30 * i + j; const int *e = a.data() + f; sym_assert(x == e && y == e, "large-at"); sym_assert(&a(i, j) == e && &c(i, j) == e, "large-call"); sym_assert(multi_array<int, 20, 30>::element(i, j) == f, "large-element"); } }
HARNESS(large_array) { static array<int, 300> a; for (int k = 0; k < 300; k++) a[k] = k; const auto &c = a; std::size_t i = sym_bits("i", 64); bool t = false, ct = false; int x = 0; try { x = a.at(i); } catch (const std::out_of_range &) { t = true; } try { c.at(i); } catch (const std::out_of_range &) { ct = true; } sym_assert(t == (i >= 300) && ct == t, "large-array-range"); if (i < 300) sym_assert(x == (int)i && a[i] == x && a(i) == x && c[i] == x && c(i) == x, "large-array-value"); }
HARNESS(rank4) { multi_array<int, 2, 3, 2, 2> a; for (int k = 0; k < 24; k++) a[k] = k; std::size_t i = sym_bits("i", 64), j = sym_bits("j", 64), k = sym_bits("k", 64), l = sym_bits("l", 64); bool in = i < 2 && j < 3 && k < 2 && l < 2, t = false; int x = 0; try { x = a.at(i, j, k, l); } catch (const std::out_of_range &) { t = true; } sym_assert(t == !in, "rank4-range"); if (in) sym_assert(x == (int)(((i * 3 + j) * 2 + k) * 2 + l) && a(i, j, k, l) == x, "rank4-value"); }
// an array of more elements than a 32-bit number counts: nothing is read, only addresses
HARNESS(huge) { auto &a = *reinterpret_cast<multi_array<char, 70000, 70000> *>(1ul << 20); const auto &c = a; sym_assert(a.size() == 4900000000ul && a.num_elements() == 4900000000ul, "huge-size"); size_t i = sym_bits("i", 17), j = sym_bits("j", 17); sym_assume(i < 70000); sym_assume(j < 70000); unsigned long e = (1ul << 20) + i * 70000 + j; sym_assert((unsigned long)&a(i, j) == e && (unsigned long)&c(i, j) == e, "huge-address"); size_t id[2] = {i, j}; sym_assert((unsigned long)&a[id] == e && (unsigned long)&c[id] == e, "huge-ids"); sym_assert((unsigned long)&a.at(i, j) == e, "huge-at"); size_t k = sym_bits("k", 33); sym_assume(k < 4900000000ul); sym_assert((unsigned long)&a[k] == (1ul << 20) + k && (unsigned long)&c[k] == (1ul << 20) + k, "huge-flat");
  auto &b = *reinterpret_cast<array<char, 5000000000ul> *>(1ul << 20); sym_assert(b.size() == 5000000000ul, "huge-array-size"); sym_assert((unsigned long)&b[k] == (1ul << 20) + k && (unsigned long)&b(k) == (1ul << 20) + k && (unsigned long)&b.at(k) == (1ul << 20) + k && (unsigned long)b.end() == (1ul << 20) + 5000000000ul, "huge-array-address"); }
