// Operations of ristra::atomics as data, with their meaning on plain values.
#pragma once
#include "conc.h"
#include <iostream>
#include <cstring>
#include <type_traits>
#include <ristra/atomics/src/atomics.h>
namespace ra = ristra::atomics; using std::memory_order;
// user-defined types: one that fits a machine word, one that does not
struct duo { int a, b; duo() = default; duo(int x, int y) : a(x), b(y) {} duo &operator+=(duo o) { a += o.a; b += o.b; return *this; } duo &operator-=(duo o) { a -= o.a; b -= o.b; return *this; } duo &operator*=(duo o) { a *= o.a; b *= o.b; return *this; } bool operator<(duo o) const { return a < o.a || (a == o.a && b < o.b); } duo &operator++() { a++; b--; return *this; } duo operator++(int) { duo t = *this; ++*this; return t; } duo &operator--() { a--; b++; return *this; } duo operator--(int) { duo t = *this; --*this; return t; } };
struct trio { int v[3]; trio() = default; trio(int x, int y, int z) : v{x, y, z} {} trio &operator+=(trio o) { for (int i = 0; i < 3; i++) v[i] += o.v[i]; return *this; } trio &operator-=(trio o) { for (int i = 0; i < 3; i++) v[i] -= o.v[i]; return *this; } bool operator<(trio o) const { return v[0] < o.v[0]; } trio &operator++() { v[0]++; return *this; } trio operator++(int) { trio t = *this; ++*this; return t; } trio &operator--() { v[2]--; return *this; } trio operator--(int) { trio t = *this; --*this; return t; } };
template<class T> T any(const char *n) { if constexpr (std::is_floating_point<T>::value) return (T)sym_real(n); else if constexpr (std::is_pointer<T>::value) return reinterpret_cast<T>(sym_bits(n, 64)); else if constexpr (std::is_same<T, duo>::value) { int a = sym_int(n), b = sym_int(n); return duo(a, b); } else if constexpr (std::is_same<T, trio>::value) { int a = sym_int(n), b = sym_int(n), c = sym_int(n); return trio(a, b, c); } else return (T)sym_bits(n, 8 * sizeof(T)); }
template<class T> bool eq(const T &x, const T &y) { if constexpr (std::is_same<T, duo>::value) return (x.a == y.a) & (x.b == y.b); else if constexpr (std::is_same<T, trio>::value) return (x.v[0] == y.v[0]) & (x.v[1] == y.v[1]) & (x.v[2] == y.v[2]); else return x == y; }
template<class T> void want(const T &x, const T &y, const char *l) { if constexpr (std::is_floating_point<T>::value) sym_eq(x, y, l); else sym_assert(eq(x, y), l); }
template<class T> void ks_envT(void *p) { *(T *)p = any<T>("env"); }
template<class T> bool ks_sameT(const void *p, const void *q) { return eq(*(const T *)p, *(const T *)q); }
enum { INTS = 1, REALS = 2, PTR = 4, USER = 8, TRIO = 16, CPP = 32 };
template<class T> constexpr int kind() { return std::is_integral<T>::value ? INTS : std::is_floating_point<T>::value ? REALS : std::is_pointer<T>::value ? PTR : std::is_same<T, trio>::value ? TRIO : USER; }
// binary operations: name, where they are available, meaning (w is updated; the result is the new value)
#define BINARY(X) X(add, +=, INTS | REALS | PTR | USER | TRIO | CPP, w += x) X(sub, -=, INTS | REALS | PTR | USER | TRIO | CPP, w -= x) X(mul, *=, INTS | REALS, w *= x) X(div, /=, INTS | REALS, w /= x) X(mod, %=, INTS, w %= x) X(lshift, <<=, INTS, w <<= x) X(rshift, >>=, INTS, w >>= x) X(andeq, &=, INTS | CPP, w &= x) X(oreq, |=, INTS | CPP, w |= x) X(xoreq, ^=, INTS | CPP, w ^= x)
#define MINMAX(X) X(min, INTS | REALS | USER | TRIO, if (x < w) w = x) X(max, INTS | REALS | USER | TRIO, if (w < x) w = x)
#define UNARY(X) X(inc, ++w) X(preinc, ++w) X(postinc, w++) X(dec, --w) X(predec, --w) X(postdec, w--)
// every form of a call; S is the scheme asked for, A may have another one of its own (OVER)
enum form { MEMBER, FREE, OPER, OVER, OVERFREE, MEMSYNC, FRESYNC, OVERSYNC, MEMSF, FRESF, OVERSF };
static memory_order so = std::memory_order_acq_rel, fo = std::memory_order_acquire; // the orders asked for
#define O1(n, op, k, m) struct op_##n { static constexpr int kinds = k; static constexpr bool hasop = true; template<class T, class X> static T ref(T &w, X x) { m; return w; } \
  template<class S, class A, class X, class... M> static auto mem(A &a, X x, M... o) { return a.n(x, o...); } template<class S, class A, class X, class... M> static auto fre(A &a, X x, M... o) { return ra::n(a, x, o...); } template<class S, class A, class X> static auto oper(A &a, X x) { return a op x; } \
  template<class S, class A, class X, class... M> static auto over(A &a, X x, M... o) { return a.template n<S>(x, o...); } template<class S, class A, class X, class... M> static auto overfre(A &a, X x, M... o) { return ra::n<S>(a, x, o...); } };
#define O2(n, k, m) struct op_##n { static constexpr int kinds = k; static constexpr bool hasop = false; template<class T, class X> static T ref(T &w, X x) { m; return w; } \
  template<class S, class A, class X, class... M> static auto mem(A &a, X x, M... o) { return a.n(x, o...); } template<class S, class A, class X, class... M> static auto fre(A &a, X x, M... o) { return ra::n(a, x, o...); } template<class S, class A, class X> static auto oper(A &a, X x) { return a.n(x); } \
  template<class S, class A, class X, class... M> static auto over(A &a, X x, M... o) { return a.template n<S>(x, o...); } template<class S, class A, class X, class... M> static auto overfre(A &a, X x, M... o) { return ra::n<S>(a, x, o...); } };
#define O3(n, m) struct op_##n { template<class T> static T ref(T &w) { return m; } template<class S, class A, class... M> static auto mem(A &a, M... o) { return a.n(o...); } template<class S, class A, class... M> static auto fre(A &a, M... o) { return ra::n(a, o...); } \
  template<class S, class A> static auto oper(A &w) { return m; } template<class S, class A, class... M> static auto over(A &a, M... o) { return a.template n<S>(o...); } template<class S, class A, class... M> static auto overfre(A &a, M... o) { return ra::n<S>(a, o...); } };
BINARY(O1) MINMAX(O2) UNARY(O3)
template<class OP> constexpr bool isshift() { return std::is_same<OP, op_lshift>::value || std::is_same<OP, op_rshift>::value; }
template<class OP> constexpr bool isdiv() { return std::is_same<OP, op_div>::value || std::is_same<OP, op_mod>::value; }
// an operand the operation is defined for
template<class OP, class T> auto operand() { if constexpr (std::is_pointer<T>::value) { long x = sym_long("x"); return x; } else { T x = any<T>("x"); if constexpr (isshift<OP>()) { sym_assume(x >= 0); sym_assume(x < (T)(8 * sizeof(T))); } if constexpr (isdiv<OP>()) { sym_assume(x != 0); if constexpr (std::is_integral<T>::value) sym_assume(x != (T)-1); } return x; } }
template<class S> constexpr bool iscpp() { return std::is_same<S, ra::cpp>::value; }
template<class S> constexpr bool iscas() { return std::is_same<S, ra::strong>::value || std::is_same<S, ra::weak>::value || std::is_same<S, ra::strong::pun>::value || std::is_same<S, ra::weak::pun>::value; }
template<class OP, class T, class S> constexpr bool avail() { return (OP::kinds & kind<T>()) && (!iscpp<S>() || ((OP::kinds & CPP) && (kind<T>() == INTS || (kind<T>() == PTR)))); }
template<class T, class S> constexpr bool avail1() { return !iscpp<S>() || kind<T>() == INTS || kind<T>() == PTR; }
template<class T, class S> constexpr bool fits() { return !(std::is_same<S, ra::strong::pun>::value || std::is_same<S, ra::weak::pun>::value) || sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8; }

// one call in the given form
template<class OP, class S, class T, class A, class... X> T call(int form, A &a, X... x) { using W = typename std::remove_volatile_t<A>::scheme_type; constexpr bool o = (iscpp<S>() && sizeof...(X)) || iscas<S>(), f = iscas<S>(), wo = (iscpp<W>() && sizeof...(X)) || iscas<W>(), wf = iscas<W>();
  switch (form) { case MEMBER: return OP::template mem<S>(a, x...); case FREE: return OP::template fre<S>(a, x...); case OPER: return OP::template oper<S>(a, x...); case OVER: return OP::template over<S>(a, x...); case OVERFREE: return OP::template overfre<S>(a, x...);
    case MEMSYNC: if constexpr (wo) return OP::template mem<S>(a, x..., so); break; case FRESYNC: if constexpr (wo) return OP::template fre<S>(a, x..., so); break; case OVERSYNC: if constexpr (o) return OP::template over<S>(a, x..., so); break;
    case MEMSF: if constexpr (wf) return OP::template mem<S>(a, x..., so, fo); break; case FRESF: if constexpr (wf) return OP::template fre<S>(a, x..., so, fo); break; case OVERSF: if constexpr (f) return OP::template over<S>(a, x..., so, fo); break; }
  sym_assume(false); return T(); }
// every operation, by number, given to f as a type
template<class F> void each_op(int n, F f) { switch (n) { case 0: f(op_add()); break; case 1: f(op_sub()); break; case 2: f(op_mul()); break; case 3: f(op_div()); break; case 4: f(op_mod()); break; case 5: f(op_lshift()); break; case 6: f(op_rshift()); break; case 7: f(op_andeq()); break; case 8: f(op_oreq()); break; case 9: f(op_xoreq()); break; case 10: f(op_min()); break; case 11: f(op_max()); break; } }
template<class F> void each_un(int n, F f) { switch (n) { case 0: f(op_inc()); break; case 1: f(op_preinc()); break; case 2: f(op_postinc()); break; case 3: f(op_dec()); break; case 4: f(op_predec()); break; case 5: f(op_postdec()); break; } }
// run one operation on a, with its meaning handed to check(result, meaning)
template<class S, class T, class A, class B, class C> void some_op(A &a, int form, B begin, C check) { int n = sym_pick("operation", 0, 17);
  if (n < 12) each_op(n, [&](auto op) { using OP = decltype(op); if constexpr (avail<OP, T, S>() && fits<T, S>()) { auto x = operand<OP, T>(); begin(); T r = call<OP, S, T>(form, a, x); check(r, [&](T &w) { return OP::ref(w, x); }); } });
  else each_un(n - 12, [&](auto op) { using OP = decltype(op); if constexpr (avail1<T, S>() && fits<T, S>()) { begin(); T r = call<OP, S, T>(form, a); check(r, [&](T &w) { return OP::ref(w); }); } }); }
