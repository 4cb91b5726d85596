// The lock scheme: every operation on a variable runs inside the one mutex of its type.
#include "atomics_common.h"
static void *owner(void (*f)()) { f(); return ks_last_mutex(); }
template<class T, class A> void one(int form, const char *) { A a{T()}; ks_agree(nullptr);
  a.template inc<ra::lock>(); void *m = ks_last_mutex(); sym_assert(m != nullptr, "takes-a-mutex");
  some_op<ra::lock, T>(a, form, [&] { a.base() = any<T>("initial"); ks_agree(m); ks_arm((void *)&a, sizeof(T), ks_envT<T>, ks_sameT<T>, 0, 0, 1); }, [&](T, auto) { int u = ks_unprotected(), e = ks_lock_error(), n = ks_nlocks(); void *h = ks_held(); ks_disarm();
    sym_assert(n > 0 && ks_last_mutex() == m, "same-mutex"); sym_assert(u == 0, "access-under-the-mutex"); sym_assert(h == nullptr, "released"); sym_assert(e == 0, "balanced"); }); }
template<class T, size_t N> void kind() { int f = sym_pick("form", MEMBER, OVERFREE); if (f < OVER) one<T, ra::atomic<T, ra::lock, N>>(f, ""); else one<T, ra::atomic<T, ra::strong, N>>(f, ""); }
template<class T> void vol() { one<T, volatile ra::atomic<T, ra::lock>>(MEMBER, ""); }
#define EACH(t, T) HARNESS(t) { kind<T, 0>(); } HARNESS(t##_7) { kind<T, 7>(); } HARNESS(t##_volatile) { vol<T>(); }
EACH(int, int) EACH(uchar, unsigned char) EACH(long, long) EACH(float, float) EACH(double, double) EACH(ptr, int *) HARNESS(duo) { kind<duo, 0>(); } HARNESS(trio) { kind<trio, 0>(); }
// two variables of one type share the mutex, also through volatile; another NMUX has another one
template<class T> void shared() { ra::atomic<T, ra::lock> a{T()}, b{T()}; volatile ra::atomic<T, ra::lock> &v = a; ra::atomic<T, ra::lock, 1> c{T()}; ra::atomic<T, ra::lock, 2> d{T()}; ks_agree(nullptr);
  a.inc(); void *m = ks_last_mutex(); b.dec(); sym_assert(ks_last_mutex() == m, "one-mutex-for-a-type"); v.inc(); sym_assert(ks_last_mutex() == m, "one-mutex-for-a-type"); ra::postinc(b); sym_assert(ks_last_mutex() == m, "one-mutex-for-a-type");
  c.inc(); void *mc = ks_last_mutex(); d.inc(); void *md = ks_last_mutex(); sym_assert(mc != m && md != m && mc != md, "own-mutex-for-another-number"); c.dec(); sym_assert(ks_last_mutex() == mc, "one-mutex-for-a-type");
  sym_assert(&ra::atomic<T, ra::lock>::singleton_mutex::instance() == m && &ra::atomic<T, ra::lock, 1>::singleton_mutex::instance() == mc, "the-mutex-offered"); }
HARNESS(shared_int) { shared<int>(); } HARNESS(shared_double) { shared<double>(); } HARNESS(shared_ptr) { shared<int *>(); }
