// The update carries at least the memory order the caller asked for.
#include "atomics_common.h"
static memory_order order(int i) { static const memory_order o[] = {std::memory_order_relaxed, std::memory_order_consume, std::memory_order_acquire, std::memory_order_release, std::memory_order_acq_rel, std::memory_order_seq_cst}; return o[i]; }
static bool acquires(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
static bool releases(int o) { return o == 3 || o == 4 || o == 5; }
static bool covers(int have, int asked) { return (!acquires(asked) || acquires(have)) && (!releases(asked) || releases(have)) && (asked != 5 || have == 5); }
// asked: order of the update, and of a failed attempt (-1: not asked for)
template<class S, class T, class A> void one(int form, int asked, int failed) { A a{T()};
  some_op<S, T>(a, form, [&] { a.base() = any<T>("initial"); ks_arm((void *)&a, sizeof(T), ks_envT<T>, ks_sameT<T>, 1, 1, 0); }, [&](T, auto) { ks_disarm();
    for (int i = 0; i < ks_nwrites(); i++) sym_assert(covers(ks_write_order(i), asked), "order-of-the-update");
    if (failed >= 0) for (int i = 0; i < ks_nfails(); i++) sym_assert(covers(ks_fail_order(i), failed), "order-of-a-failed-attempt"); }); }
template<class S, class O, class T> void none() { int f = sym_pick("form", MEMBER, OVERFREE); if (f < OVER) one<S, T, ra::atomic<T, S>>(f, 5, -1); else one<S, T, ra::atomic<T, O>>(f, 5, -1); }
template<class S, class O, class T> void sync() { int o = sym_pick("order", 0, 5); so = order(o); int f = sym_pick("form", MEMSYNC, OVERSYNC); if (f == OVERSYNC) one<S, T, ra::atomic<T, O>>(f, o, -1); else one<S, T, ra::atomic<T, S>>(f, o, -1); }
template<class S, class O, class T> void volsync() { int o = sym_pick("order", 0, 5); so = order(o); one<S, T, volatile ra::atomic<T, S>>(MEMSYNC, o, -1); }
template<class S, class O, class T> void both() { int o = sym_pick("order", 0, 5), p = sym_pick("failure", 0, 5); sym_assume(p != 3 && p != 4); so = order(o); fo = order(p); int f = sym_pick("form", MEMSF, OVERSF); if (f == OVERSF) one<S, T, ra::atomic<T, O>>(f, o, p); else one<S, T, ra::atomic<T, S>>(f, o, p); }
template<class S, class O, class T> void volboth() { int o = sym_pick("order", 0, 5), p = sym_pick("failure", 0, 5); sym_assume(p != 3 && p != 4); so = order(o); fo = order(p); one<S, T, volatile ra::atomic<T, S>>(MEMSF, o, p); }
#define SYNC(s, S, O, t, T) HARNESS(s##_##t##_default) { none<S, O, T>(); } HARNESS(s##_##t##_sync) { sync<S, O, T>(); } HARNESS(s##_##t##_volatile_sync) { volsync<S, O, T>(); }
#define BOTH(s, S, O, t, T) SYNC(s, S, O, t, T) HARNESS(s##_##t##_both) { both<S, O, T>(); } HARNESS(s##_##t##_volatile_both) { volboth<S, O, T>(); }
#define EACH(t, T) BOTH(strong, ra::strong, ra::serial, t, T) BOTH(weak, ra::weak, ra::strong, t, T) BOTH(strongpun, ra::strong::pun, ra::weak, t, T) BOTH(weakpun, ra::weak::pun, ra::strong, t, T)
#if PART == 1
EACH(int, int) SYNC(cpp, ra::cpp, ra::strong, int, int)
#elif PART == 2
EACH(double, double) EACH(uchar, unsigned char)
#elif PART == 3
EACH(ptr, int *) SYNC(cpp, ra::cpp, ra::strong, ptr, int *) SYNC(cpp, ra::cpp, ra::strong, uchar, unsigned char) EACH(short, short)
#elif PART == 4
EACH(long, long) EACH(float, float) SYNC(cpp, ra::cpp, ra::strong, ulong, unsigned long)
#endif
