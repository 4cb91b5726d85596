// No update is lost and every result belongs to its own update, whatever other threads do in between.
#include "atomics_common.h"
static const int B = thorough ? 4 : 2, SP = thorough ? 2 : 1;
// the single write of the operation, applied to the value it replaced
template<class T, class F> void verdict(T ret, F ref) {
  int n = ks_nwrites();
  if (n == 1) { T w = *(const T *)ks_before(0); T g = ref(w); want(*(const T *)ks_after(0), w, "no-lost-update"); want(ret, g, "result-of-this-update"); }
  else if (n == 0) { bool ok = false; for (int i = 0; i < ks_nreads(); i++) { T r = *(const T *)ks_read_value(i), w = r; T g = ref(w); ok |= eq(w, r) & eq(ret, g); } sym_assert(ok, "no-lost-update"); }
  else sym_assert(false, "one-update"); }
template<class S, class T, class A> void start(A &a) { if constexpr (std::is_same<S, ra::lock>::value) { ks_agree(nullptr); a.template inc<ra::lock>(); ks_agree(ks_last_mutex()); } a.base() = any<T>("initial"); ks_arm((void *)&a, sizeof(T), ks_envT<T>, ks_sameT<T>, B, SP, 0); }
template<class S, class T, class A> void all(int f) { A a{T()}; some_op<S, T>(a, f, [&] { start<S, T>(a); }, [&](T r, auto ref) { ks_disarm(); verdict(r, ref); }); }
// the variable's own scheme, and a scheme asked for in the call
template<class S, class O, class T> void own() { all<S, T, ra::atomic<T, S>>(sym_pick("form", 0, 2)); }
template<class S, class O, class T> void asked() { all<S, T, ra::atomic<T, O>>(sym_pick("form", 3, 4)); }
template<class S, class O, class T> void ordered() { if constexpr (iscpp<S>()) all<S, T, ra::atomic<T, S>>(sym_pick("form", MEMSYNC, FRESYNC)); else { constexpr int fs[] = {MEMSYNC, FRESYNC, MEMSF, FRESF}; all<S, T, ra::atomic<T, S>>(fs[sym_pick("form", 0, 3)]); } }
template<class S, class O, class T> void vol() { all<S, T, volatile ra::atomic<T, S>>(MEMBER); }
#define ONE(s, S, O, t, T) HARNESS(s##_##t) { own<S, O, T>(); } HARNESS(s##_##t##_asked) { asked<S, O, T>(); }
#define VOL(s, S, O, t, T) ONE(s, S, O, t, T) HARNESS(s##_##t##_volatile) { vol<S, O, T>(); }
#define ORD(s, S, O, t, T) VOL(s, S, O, t, T) HARNESS(s##_##t##_ordered) { ordered<S, O, T>(); }
#define CASES(t, T, ONE) ONE(strong, ra::strong, ra::serial, t, T) ONE(weak, ra::weak, ra::strong, t, T) ONE(strongpun, ra::strong::pun, ra::weak, t, T) ONE(weakpun, ra::weak::pun, ra::strong, t, T) 
#define EACH(t, T) CASES(t, T, ORD) VOL(lock, ra::lock, ra::strong, t, T)
#if PART == 1
EACH(int, int) ORD(cpp, ra::cpp, ra::strong, int, int) EACH(uchar, unsigned char) ORD(cpp, ra::cpp, ra::lock, uchar, unsigned char)
#elif PART == 2
EACH(double, double) EACH(float, float)
#elif PART == 3
EACH(long, long) ORD(cpp, ra::cpp, ra::strong, long, long) CASES(duo, duo, ORD) ONE(lock, ra::lock, ra::strong, duo, duo)
#elif PART == 5
EACH(short, short) ORD(cpp, ra::cpp, ra::strong, short, short)
#elif PART == 4
EACH(ptr, int *) ORD(cpp, ra::cpp, ra::strong, ptr, int *)
ORD(strong, ra::strong, ra::serial, trio, trio) ORD(weak, ra::weak, ra::strong, trio, trio) ONE(lock, ra::lock, ra::strong, trio, trio)
#endif
