#include "conc.h"
#include <cstring>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
enum { MAXE = 16, MAXN = 32 };
static char *S; static size_t N; static bool armed; static void (*env)(void *); static bool (*same)(const void *, const void *); static int budget, spurious, merge;
struct alignas(16) Ev { char before[MAXN]; char after[MAXN]; int order; long section; };
static Ev W[MAXE]; static int nw; static bool pending; struct alignas(16) Rd { char v[MAXN]; }; static Rd Rs[MAXE]; static int nr; static int F[MAXE]; static int nf;
static void *cur, *lastm, *agreed; static int locks, lockerr, unprot; static long section;
static void *cp(void *d, const void *s, size_t n) { return __builtin_memcpy(d, s, n); }
static bool prot() { return cur && (!agreed || cur == agreed); }
static void settle() { if (pending) { cp(W[nw - 1].after, S, N); pending = false; } }
static void interfere() { settle(); if (budget > 0 && !prot() && sym_pick("interfere", 0, 1)) { budget--; armed = false; env(S); armed = true; section++; } }
static bool hit(const void *p, size_t n) { return armed && (const char *)p < S + N && (const char *)p + n > S; }
static bool equal(const void *p, const void *e) { armed = false; bool r = same(p, e); armed = true; return r; }
static void saw() { if (nr < MAXE) cp(Rs[nr++].v, S, N); }
static void begin(int order, bool plain) { if (plain && nw && W[nw - 1].section == section && (merge || prot())) { pending = true; return; } if (nw < MAXE) { cp(W[nw].before, S, N); W[nw].order = order; W[nw].section = plain ? section : -1; nw++; pending = true; } }
extern "C" {
void ks_arm(void *p, size_t n, void (*e)(void *), bool (*sm)(const void *, const void *), int b, int sp, int m) { S = (char *)p; N = n; env = e; same = sm; budget = b; spurious = sp; merge = m; nw = nr = nf = 0; pending = false; locks = lockerr = unprot = 0; section = 1; armed = true; }
void ks_disarm() { settle(); armed = false; }
int ks_nwrites() { return nw; } const void *ks_before(int i) { return W[i].before; } const void *ks_after(int i) { return W[i].after; } int ks_write_order(int i) { return W[i].order; }
int ks_nreads() { return nr; } const void *ks_read_value(int i) { return Rs[i].v; } int ks_nfails() { return nf; } int ks_fail_order(int i) { return F[i]; }
void *ks_last_mutex() { return lastm; } void ks_agree(void *m) { agreed = m; } int ks_nlocks() { return locks; } void *ks_held() { return cur; } int ks_unprotected() { return unprot; } int ks_lock_error() { return lockerr; }
void ks_read(const void *p, size_t n) { if (hit(p, n)) { if (!prot()) unprot++; interfere(); saw(); } }
void ks_write(void *p, size_t n) { if (hit(p, n)) { if (!prot()) unprot++; interfere(); begin(-1, true); } }
void ks_fence(int) {}
#define SIZE(B) \
u##B ks_load##B(u##B *p, int) { if (hit(p, B / 8)) { if (!prot()) unprot++; interfere(); saw(); } return *p; } \
void ks_store##B(u##B *p, u##B v, int o) { if (!hit(p, B / 8)) { *p = v; return; } if (!prot()) unprot++; interfere(); begin(o, false); *p = v; settle(); } \
u##B ks_rmw##B(u##B *p, int op, u##B x, int o) { bool h = hit(p, B / 8); if (h) { if (!prot()) unprot++; interfere(); begin(o, false); } u##B v = *p, r = v; \
  switch (op) { case 0: r = x; break; case 1: r = v + x; break; case 2: r = v - x; break; case 3: r = v & x; break; case 4: r = ~(v & x); break; case 5: r = v | x; break; case 6: r = v ^ x; break; default: __builtin_trap(); } *p = r; if (h) settle(); return v; } \
int ks_cas##B(u##B *p, u##B *e, u##B x, int o, int fo, int weak) { if (!hit(p, B / 8)) { if (*p == *e) { *p = x; return 1; } *e = *p; return 0; } \
  if (!prot()) unprot++; interfere(); bool fail = weak && spurious > 0 && sym_pick("spurious", 0, 1); if (fail) spurious--; \
  if (!fail && equal(p, e)) { begin(o, false); *p = x; settle(); return 1; } saw(); if (nf < MAXE) F[nf++] = fo; *e = *p; return 0; }
SIZE(8) SIZE(16) SIZE(32) SIZE(64)
// library calls for objects without a hardware instruction
void ks_gload(size_t n, const void *p, void *r, int) asm("__atomic_load"); void ks_gload(size_t n, const void *p, void *r, int) { if (hit(p, n)) { if (!prot()) unprot++; interfere(); saw(); } cp(r, p, n); }
void ks_gstore(size_t n, void *p, const void *v, int o) asm("__atomic_store"); void ks_gstore(size_t n, void *p, const void *v, int o) { bool h = hit(p, n); if (h) { if (!prot()) unprot++; interfere(); begin(o, false); } cp(p, v, n); if (h) settle(); }
void ks_gxchg(size_t n, void *p, const void *v, void *r, int o) asm("__atomic_exchange"); void ks_gxchg(size_t n, void *p, const void *v, void *r, int o) { bool h = hit(p, n); if (h) { if (!prot()) unprot++; interfere(); begin(o, false); } char t[MAXN]; cp(t, p, n); cp(p, v, n); cp(r, t, n); if (h) settle(); }
bool ks_gcas(size_t n, void *p, void *e, const void *x, int o, int fo) asm("__atomic_compare_exchange"); bool ks_gcas(size_t n, void *p, void *e, const void *x, int o, int fo) { bool h = hit(p, n); if (h) { if (!prot()) unprot++; interfere(); if (equal(p, e)) { begin(o, false); cp(p, x, n); settle(); return true; } saw(); if (nf < MAXE) F[nf++] = fo; } else if (!__builtin_memcmp(p, e, n)) { cp(p, x, n); return true; } cp(e, p, n); return false; }
int pthread_mutex_lock(void *m) { if (armed) interfere(); if (cur) lockerr++; cur = m; lastm = m; locks++; section++; return 0; }
int pthread_mutex_trylock(void *m) { if (cur) return 16; return pthread_mutex_lock(m); }
int pthread_mutex_unlock(void *m) { if (cur != m) lockerr++; if (armed) settle(); cur = nullptr; section++; if (armed) interfere(); return 0; }
}
