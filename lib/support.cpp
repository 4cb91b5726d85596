// Bodies of library functions that are not available as IR: C string functions,
// std::string, red-black tree and list primitives.  Trusted models of libc/libstdc++.
#include <cstddef>
#include <cstdint>
#include <string>
#include <map>
#include <list>
#include <unordered_map>
#include <bits/stl_tree.h>
template class std::basic_string<char>;
template class std::basic_string<wchar_t>;
template std::string std::operator+(const char*, const std::string&);
extern "C" {
int memcmp(const void *a, const void *b, size_t n) { auto *p = (const unsigned char *)a; auto *q = (const unsigned char *)b; for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
int bcmp(const void *a, const void *b, size_t n) { auto *p = (const unsigned char *)a; auto *q = (const unsigned char *)b; for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return 1; return 0; }
size_t mbstowcs(wchar_t *d, const char *s, size_t n) { size_t i = 0; for (; i < n; i++) { if ((signed char)s[i] < 0) return (size_t)-1; if (d) d[i] = s[i]; if (!s[i]) return i; } return i; } // ASCII only
int wmemcmp(const wchar_t *a, const wchar_t *b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
wchar_t *wmemset(wchar_t *d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
wchar_t *wmemcpy(wchar_t *d, const wchar_t *s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
wchar_t *wmemmove(wchar_t *d, const wchar_t *s, size_t n) { if (d < s) for (size_t i = 0; i < n; i++) d[i] = s[i]; else for (size_t i = n; i--;) d[i] = s[i]; return d; }
size_t wcslen(const wchar_t *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return nullptr; } }
void *memchr(const void *s, int c, size_t n) { auto *p = (const unsigned char *)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return nullptr; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
double sqrt(double); double sin(double); double cos(double); double floor(double);
double hypot(double a, double b) { return __builtin_sqrt(a * a + b * b); }
float hypotf(float a, float b) { return __builtin_sqrtf(a * a + b * b); }
double tan(double a) { return sin(a) / cos(a); }
long lround(double a) { return a < 0 ? -(long)floor(-a + 0.5) : (long)floor(a + 0.5); }
struct div_r { int q, r; }; div_r div_(int a, int b) asm("div"); div_r div_(int a, int b) { return {a / b, a % b}; }
long strtol_(const char *s, char **e, int base) { const char *p = s; while (isspace((unsigned char)*p)) p++; bool neg = false; if (*p == '+' || *p == '-') neg = *p++ == '-'; long v = 0; const char *d = p; while (true) { int c = (unsigned char)*p, x = isdigit(c) ? c - '0' : isalpha(c) ? tolower(c) - 'a' + 10 : 99; if (x >= base) break; v = v * base + x; p++; } if (e) *e = (char *)(p == d ? s : p); return neg ? -v : v; } // no overflow, no base prefix
long __isoc23_strtol(const char *s, char **e, int base) { return strtol_(s, e, base); }
long __isoc23_strtoll(const char *s, char **e, int base) { return strtol_(s, e, base); }
unsigned long __isoc23_strtoul(const char *s, char **e, int base) { return strtol_(s, e, base); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
__attribute__((weak)) int pthread_mutex_lock(void *) { return 0; }
__attribute__((weak)) int pthread_mutex_unlock(void *) { return 0; }
__attribute__((weak)) int pthread_mutex_trylock(void *) { return 0; }
}
namespace std {
// binary search tree primitives (no rebalancing: only order and links matter to users)
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; // header
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  h._M_color = _S_red;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  auto repl = [&](_Rb_tree_node_base *a, _Rb_tree_node_base *b) {
    if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b;
    if (b) b->_M_parent = a->_M_parent; };
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else { _Rb_tree_node_base *y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  _Rb_tree_node_base *r = h._M_parent;
  if (!r) { h._M_left = h._M_right = &h; } else { _Rb_tree_node_base *m = r; while (m->_M_left) m = m->_M_left; h._M_left = m; m = r; while (m->_M_right) m = m->_M_right; h._M_right = m; }
  return z;
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { auto *c = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + c[i]; return h; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this == l) return; l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
void _List_node_base::_M_reverse() noexcept { auto *t = this; do { auto *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { auto *n = x._M_next; x._M_next = y._M_next; y._M_next = n; auto *p = x._M_prev; x._M_prev = y._M_prev; y._M_prev = p; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) swap(y, x); }
// hash tables: one of a few bucket counts (only the order of iteration depends on it)
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { _M_next_resize = n < 13 ? 13 : n | 1; return _M_next_resize; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const { if (elt + ins > _M_next_resize) { size_t w = elt + ins; if (w < bkt * 2) w = bkt * 2; return {true, _M_next_bkt(w)}; } return {false, 0}; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next; auto *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
}
}
// std::cout, cerr, clog: objects whose (inlined) widen works; inserting is a no-op
struct fake_ctype { char c[1024]; };
extern fake_ctype fake_ctype_char;
constexpr fake_ctype mk_ctype() { fake_ctype r{}; for (auto &c : r.c) c = 1; return r; }
fake_ctype fake_ctype_char = mk_ctype();
struct fake_stream { void *vptr; const void *ios[48]; long vbase; long rest[2]; long vtab; };
extern fake_stream fake_cout asm("_ZSt4cout"), fake_cerr asm("_ZSt4cerr"), fake_clog asm("_ZSt4clog");
#define FAKE(n) __attribute__((weak)) fake_stream n = {&n.vtab, {0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,&fake_ctype_char,&fake_ctype_char}, 8, {0, 0}, 0};
FAKE(fake_cout) FAKE(fake_cerr) FAKE(fake_clog)
// exception classes of <stdexcept>: they keep and return their message
namespace { struct err_t { const void *const *v; char *m; };
char *keep(const char *s, size_t n) { char *r = (char *)__builtin_malloc(n + 1); for (size_t i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; return r; } }
extern "C" {
__attribute__((used)) const char *err_what(err_t *e) { return e->m ? e->m : ""; }
__attribute__((used)) const char *what_logic(err_t *) asm("_ZNKSt11logic_error4whatEv"); const char *what_logic(err_t *e) { return err_what(e); }
__attribute__((used)) const char *what_runtime(err_t *) asm("_ZNKSt13runtime_error4whatEv"); const char *what_runtime(err_t *e) { return err_what(e); }
#define EXC_FN(id, name, args, body) __attribute__((used)) void id args asm(name); void id args body
#define EXC(N, id) extern const char ti_##id asm("_ZTISt" N); EXC_FN(d0_##id, "_ZNSt" N "D0Ev", (err_t *), {}) EXC_FN(d1_##id, "_ZNSt" N "D1Ev", (err_t *), {}) EXC_FN(d2_##id, "_ZNSt" N "D2Ev", (err_t *), {}) \
  extern const void *const vt_##id[5] asm("_ZTVSt" N); const void *const vt_##id[5] = {0, &ti_##id, (void *)d1_##id, (void *)d0_##id, (void *)err_what}; \
  EXC_FN(c1s_##id, "_ZNSt" N "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", (err_t *e, const std::string &s), { e->v = vt_##id + 2; e->m = keep(s.data(), s.size()); }) \
  EXC_FN(c2s_##id, "_ZNSt" N "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", (err_t *e, const std::string &s), { c1s_##id(e, s); }) \
  EXC_FN(c1c_##id, "_ZNSt" N "C1EPKc", (err_t *e, const char *s), { e->v = vt_##id + 2; e->m = keep(s, strlen(s)); }) EXC_FN(c2c_##id, "_ZNSt" N "C2EPKc", (err_t *e, const char *s), { c1c_##id(e, s); }) \
  EXC_FN(c1k_##id, "_ZNSt" N "C1ERKS_", (err_t *e, err_t *o), { e->v = vt_##id + 2; e->m = o->m; }) EXC_FN(c2k_##id, "_ZNSt" N "C2ERKS_", (err_t *e, err_t *o), { e->v = vt_##id + 2; e->m = o->m; }) \
  EXC_FN(c1m_##id, "_ZNSt" N "C1EOS_", (err_t *e, err_t *o), { e->v = vt_##id + 2; e->m = o->m; }) EXC_FN(c2m_##id, "_ZNSt" N "C2EOS_", (err_t *e, err_t *o), { e->v = vt_##id + 2; e->m = o->m; })
EXC("11logic_error", logic_error) EXC("13runtime_error", runtime_error) EXC("12out_of_range", out_of_range) EXC("12domain_error", domain_error) EXC("16invalid_argument", invalid_argument) EXC("12length_error", length_error) EXC("11range_error", range_error) EXC("14overflow_error", overflow_error) EXC("15underflow_error", underflow_error)
}
// std::call_once (one thread)
namespace std { __attribute__((weak)) __thread void *__once_callable; __attribute__((weak)) __thread void (*__once_call)(); }
extern "C" {
__attribute__((weak, used)) void __once_proxy() { std::__once_call(); }
__attribute__((weak, used)) int pthread_once(int *c, void (*f)()) { if (!*c) { *c = 2; f(); } return 0; }
}
