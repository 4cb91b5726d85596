// Without other threads an atomic variable behaves as its plain value type, in every scheme and every form of call.
#include "atomics_common.h"
template<class T> void set(T &w, const T &v) { w = v; }
template<class S, class T, class A> void op(int form) { A a{T()}; T v = any<T>("initial"), w = v;
  some_op<S, T>(a, form, [&] { a.base() = v; }, [&](T r, auto ref) { T g = ref(w); want(r, g, "result"); want(T(a), w, "value"); want(const_cast<const A &>(a).base().load(), w, "value"); }); }
template<class S, class O, class T> void ops() { int f = sym_pick("form", MEMBER, OVERSF); if constexpr (!iscas<S>() && !iscpp<S>()) sym_assume(f < MEMSYNC); if constexpr (iscpp<S>()) sym_assume(f < MEMSF); 
  if (f == OVER || f == OVERFREE || f == OVERSYNC || f == OVERSF) op<S, T, ra::atomic<T, O>>(f); else op<S, T, ra::atomic<T, S>>(f); }
template<class S, class O, class T> void volops() { int f = sym_pick("form", MEMBER, OVERSF); if constexpr (!iscas<S>() && !iscpp<S>()) sym_assume(f < MEMSYNC); if constexpr (iscpp<S>()) sym_assume(f < MEMSF); 
  if (f == OVER || f == OVERFREE || f == OVERSYNC || f == OVERSF) op<S, T, volatile ra::atomic<T, O>>(f); else op<S, T, volatile ra::atomic<T, S>>(f); }
// construction, assignment, conversion, references
template<class S, class T> void basics() { T v = any<T>("initial"), u = any<T>("next"), t = any<T>("last"); ra::atomic<T, S> a(v); const ra::atomic<T, S> &c = a; volatile ra::atomic<T, S> &o = a; const volatile ra::atomic<T, S> &co = a;
  want(T(a), v, "constructed"); want(T(c), v, "constructed"); want(T(o), v, "constructed"); want(T(co), v, "constructed"); want(T(c.ref()), v, "reference"); want(T(a.ref()), v, "reference");
  if constexpr (std::is_scalar<T>::value) { want(T(o.ref()), v, "reference"); want(T(co.ref()), v, "reference"); }
  T r = (a = u); want(r, u, "assigned"); want(T(a), u, "assigned"); a.ref() = t; want(T(a), t, "reference"); want(a.base().load(), t, "base"); want(T(o.base()), t, "base"); want(T(co.base()), t, "base"); r = (o = v); want(r, v, "assigned"); want(T(c), v, "assigned"); a.store(u); want(a.load(), u, "assigned");
  static_assert(sizeof(a) >= sizeof(T) && std::is_same<typename ra::atomic<T, S>::value_type, T>::value && std::is_same<typename ra::atomic<T, S>::scheme_type, S>::value, ""); }
// two variables side by side do not touch each other
template<class S, class O, class T> void pair() { struct { T l; ra::atomic<T, S> a; T r; } x{any<T>("left"), {T()}, any<T>("right")}; T l = x.l, r = x.r; some_op<S, T>(x.a, MEMBER, [&] { x.a.base() = any<T>("initial"); }, [&](T, auto) { want(x.l, l, "neighbour"); want(x.r, r, "neighbour"); }); }
#define ONE(s, S, O, t, T) HARNESS(s##_##t) { ops<S, O, T>(); } HARNESS(s##_##t##_volatile) { volops<S, O, T>(); } HARNESS(s##_##t##_basics) { basics<S, T>(); } HARNESS(s##_##t##_pair) { pair<S, O, T>(); }
#define NOVOL(s, S, O, t, T) HARNESS(s##_##t) { ops<S, O, T>(); } HARNESS(s##_##t##_basics) { basics<S, T>(); } HARNESS(s##_##t##_pair) { pair<S, O, T>(); }
#define CASES(t, T, ONE) ONE(strong, ra::strong, ra::serial, t, T) ONE(weak, ra::weak, ra::strong, t, T) ONE(strongpun, ra::strong::pun, ra::weak, t, T) ONE(weakpun, ra::weak::pun, ra::lock, t, T)
#define EACH(t, T) CASES(t, T, ONE) ONE(lock, ra::lock, ra::strong::pun, t, T) ONE(serial, ra::serial, ra::strong, t, T)
#define CPPS(t, T) EACH(t, T) ONE(cpp, ra::cpp, ra::weak, t, T)
#if PART == 1
CPPS(int, int) CPPS(unsigned, unsigned)
#elif PART == 2
CPPS(long, long) CPPS(ulong, unsigned long)
#elif PART == 3
CPPS(schar, signed char) CPPS(uchar, unsigned char) CPPS(char, char)
#elif PART == 4
CPPS(short, short) CPPS(ptr, int *)
#elif PART == 5
EACH(float, float) EACH(double, double)
#elif PART == 6
ONE(strong, ra::strong, ra::weak, duo, duo) ONE(weak, ra::weak, ra::strong, duo, duo) ONE(strongpun, ra::strong::pun, ra::weak, duo, duo) ONE(weakpun, ra::weak::pun, ra::strong, duo, duo) NOVOL(lock, ra::lock, ra::strong, duo, duo) NOVOL(serial, ra::serial, ra::strong, duo, duo)
ONE(strong, ra::strong, ra::weak, trio, trio) ONE(weak, ra::weak, ra::strong, trio, trio) NOVOL(lock, ra::lock, ra::strong, trio, trio) NOVOL(serial, ra::serial, ra::strong, trio, trio)
// operands of another type, convertible without loss
template<class S, class T, class X> void mixed() { T v = any<T>("initial"), w; X x; if constexpr (std::is_floating_point<X>::value) x = any<T>("x"); else x = any<X>("x"); ra::atomic<T, S> a(v); if constexpr (std::is_integral<X>::value) sym_assume(x != 0);
  w = v; T r = a += x; w += x; want(r, w, "result"); want(T(a), w, "value"); r = a -= x; w -= x; want(r, w, "result"); r = a.min(x); if (x < w) w = T(x); want(r, w, "result"); want(T(a), w, "value"); a = v; w = v; r = ra::max(a, x); if (w < x) w = T(x); want(r, w, "result"); want(T(a), w, "value");
  a = v; w = v; r = a *= x; w *= x; want(r, w, "result"); want(T(a), w, "value"); }
template<class T, class X> void mix() { switch (sym_pick("scheme", 0, 5)) { case 0: mixed<ra::strong, T, X>(); break; case 1: mixed<ra::weak, T, X>(); break; case 2: mixed<ra::strong::pun, T, X>(); break; case 3: mixed<ra::weak::pun, T, X>(); break; case 4: mixed<ra::lock, T, X>(); break; case 5: mixed<ra::serial, T, X>(); break; } }
HARNESS(mixed_long_int) { mix<long, int>(); } HARNESS(mixed_int_short) { mix<int, short>(); } HARNESS(mixed_int_long) { mix<int, long>(); } HARNESS(mixed_float_double) { mix<float, double>(); } HARNESS(mixed_uchar_int) { mix<unsigned char, int>(); }
#endif
