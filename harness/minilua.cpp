// A small, strict model of the Lua 5.3 C API: values, tables, C functions, the
// stack of the running call, registry references.  Where the manual leaves
// behaviour undefined (an index that names nothing, a released reference, a
// full stack, a closed state) the model reports it instead of going on.
#include "sym.h"
#include "minilua.h"
#include <stdlib.h>
#include <string.h>
namespace {
struct str { char *p; size_t n; };
struct val { int t; int isint; long long i; double n; void *p; };
struct pair { val k, v; };
struct tab { pair *e; int n, cap; };
struct fn { lua_CFunction f; };
struct lua_throw { int status; };
constexpr int REFS = 64, CAP = 128;
struct block { block *next; void *p; };
}
struct lua_State { val *stk; int base, top, limit; val ref[REFS]; int live[REFS]; tab *globals; block *mem; lua_CFunction panic; };
int minilua_open = 0, minilua_fail_checkstack = 0;
#define NEED(c, what) do { if (!(c)) { sym_assert(false, what); abort(); } } while (0)
static void *mem(lua_State *L, size_t n) { void *p = malloc(n); block *b = (block *)malloc(sizeof(block)); b->next = L->mem; b->p = p; L->mem = b; return p; }
static val nil() { val v; v.t = LUA_TNIL; v.isint = 0; v.i = 0; v.n = 0; v.p = nullptr; return v; }
static val mkstr(lua_State *L, const char *s, size_t n) { str *x = (str *)mem(L, sizeof(str)); x->p = (char *)mem(L, n + 1); for (size_t i = 0; i < n; i++) x->p[i] = s[i]; x->p[n] = 0; x->n = n; val v = nil(); v.t = LUA_TSTRING; v.p = x; return v; }
static val mktab(lua_State *L) { tab *t = (tab *)mem(L, sizeof(tab)); t->cap = 16; t->n = 0; t->e = (pair *)mem(L, t->cap * sizeof(pair)); val v = nil(); v.t = LUA_TTABLE; v.p = t; return v; }
static val mkint(long long i) { val v = nil(); v.t = LUA_TNUMBER; v.isint = 1; v.i = i; return v; }
static bool same(const val &a, const val &b) { if (a.t != b.t) return false; switch (a.t) { case LUA_TNIL: return true; case LUA_TBOOLEAN: return a.i == b.i; case LUA_TNUMBER: return a.isint && b.isint ? a.i == b.i : (a.isint ? (double)a.i : a.n) == (b.isint ? (double)b.i : b.n); case LUA_TSTRING: { str *x = (str *)a.p, *y = (str *)b.p; if (x->n != y->n) return false; for (size_t i = 0; i < x->n; i++) if (x->p[i] != y->p[i]) return false; return true; } default: return a.p == b.p; } }
static val tget(tab *t, const val &k) { for (int i = 0; i < t->n; i++) if (same(t->e[i].k, k)) return t->e[i].v; return nil(); }
static void tset(lua_State *L, tab *t, const val &k, const val &v) { for (int i = 0; i < t->n; i++) if (same(t->e[i].k, k)) { if (v.t == LUA_TNIL) { for (int j = i; j + 1 < t->n; j++) t->e[j] = t->e[j + 1]; t->n--; } else t->e[i].v = v; return; } if (v.t == LUA_TNIL) return; if (t->n == t->cap) { pair *q = (pair *)mem(L, 2 * t->cap * sizeof(pair)); for (int i = 0; i < t->n; i++) q[i] = t->e[i]; t->e = q; t->cap *= 2; } t->e[t->n].k = k; t->e[t->n].v = v; t->n++; }
static void push(lua_State *L, const val &v) { NEED(L->top < L->limit, "lua-stack-room"); L->stk[L->top++] = v; }
static int count(lua_State *L) { return L->top - L->base; }
static bool pseudo(int i) { return i <= LUA_REGISTRYINDEX; }
static val *at(lua_State *L, int i) { NEED(!pseudo(i), "lua-index"); if (i > 0) { NEED(i <= count(L), "lua-index"); return &L->stk[L->base + i - 1]; } NEED(i != 0 && -i <= count(L), "lua-index"); return &L->stk[L->top + i]; }
static val *acceptable(lua_State *L, int i) { if (i > 0 && i > count(L)) return nullptr; return at(L, i); }
static val pop(lua_State *L) { NEED(count(L) > 0, "lua-stack-empty"); return L->stk[--L->top]; }
static tab *table(lua_State *L, int i) { if (i == LUA_REGISTRYINDEX) return nullptr; val *v = at(L, i); NEED(v->t == LUA_TTABLE, "lua-not-a-table"); return (tab *)v->p; }
static bool tonumber(const val &v, val &out) { if (v.t == LUA_TNUMBER) { out = v; return true; } if (v.t != LUA_TSTRING) return false; str *s = (str *)v.p; size_t i = 0, n = s->n; bool neg = false; while (i < n && s->p[i] == ' ') i++; while (n > i && s->p[n - 1] == ' ') n--; if (i < n && (s->p[i] == '-' || s->p[i] == '+')) neg = s->p[i++] == '-'; long long m = 0; int digits = 0; for (; i < n && s->p[i] >= '0' && s->p[i] <= '9'; i++, digits++) m = m * 10 + (s->p[i] - '0'); if (i == n) { if (!digits) return false; out = mkint(neg ? -m : m); return true; } if (s->p[i++] != '.') return false; double f = m, w = 1; for (; i < n && s->p[i] >= '0' && s->p[i] <= '9'; i++, digits++) { w /= 10; f += w * (s->p[i] - '0'); } if (i != n || !digits) return false; out = mkint(0); out.isint = 0; out.n = neg ? -f : f; return true; }
static bool tointeger(const val &v, long long &r) { val x; if (!tonumber(v, x)) return false; if (x.isint) { r = x.i; return true; } if (!(x.n >= -9223372036854775808.0 && x.n < 9223372036854775808.0)) return false; long long k = (long long)x.n; if ((double)k != x.n) return false; r = k; return true; }
extern "C" {
lua_State *lua_newstate(lua_Alloc, void *) { lua_State *L = (lua_State *)malloc(sizeof(lua_State)); L->stk = (val *)malloc(CAP * sizeof(val)); L->base = L->top = 0; L->limit = LUA_MINSTACK; L->mem = nullptr; L->panic = nullptr; for (int i = 0; i < REFS; i++) L->live[i] = 0; L->globals = (tab *)mktab(L).p; minilua_open++; return L; }
void lua_close(lua_State *L) { for (block *b = L->mem; b;) { block *n = b->next; free(b->p); free(b); b = n; } free(L->stk); free(L); minilua_open--; }
lua_CFunction lua_atpanic(lua_State *L, lua_CFunction f) { auto o = L->panic; L->panic = f; return o; }
void luaL_openlibs(lua_State *L) { NEED(L->limit > 0, "lua-state"); }
void luaL_checkversion_(lua_State *, lua_Number, size_t) {}
int lua_gettop(lua_State *L) { return count(L); }
void lua_settop(lua_State *L, int i) { if (i >= 0) { NEED(L->base + i <= L->limit, "lua-stack-room"); while (count(L) < i) push(L, nil()); L->top = L->base + i; } else { NEED(-(i + 1) <= count(L), "lua-index"); L->top += i + 1; } }
int lua_absindex(lua_State *L, int i) { return i > 0 || pseudo(i) ? i : count(L) + i + 1; }
void lua_pushvalue(lua_State *L, int i) { val v = *at(L, i); push(L, v); }
void lua_rotate(lua_State *L, int idx, int n) { val *p = at(L, idx), *t = &L->stk[L->top - 1]; long long len = t - p + 1; NEED((n >= 0 ? n : -n) <= len, "lua-index"); val *m = n >= 0 ? t - n : p - n - 1; auto rev = [](val *a, val *b) { for (; a < b; a++, b--) { val x = *a; *a = *b; *b = x; } }; rev(p, m); rev(m + 1, t); rev(p, t); }
void lua_copy(lua_State *L, int from, int to) { val v = *at(L, from); *at(L, to) = v; }
int lua_checkstack(lua_State *L, int n) { NEED(n >= 0 || n == -1, "lua-negative-room"); if (minilua_fail_checkstack || L->top + n > CAP - 40) return 0; if (L->limit < L->top + n) L->limit = L->top + n; return 1; }
void luaL_checkstack(lua_State *L, int n, const char *) { if (!lua_checkstack(L, n)) { lua_pushstring(L, "stack overflow"); lua_error(L); } }
int lua_type(lua_State *L, int i) { if (pseudo(i)) return LUA_TTABLE; val *v = acceptable(L, i); return v ? v->t : LUA_TNONE; }
const char *lua_typename(lua_State *, int t) { switch (t) { case LUA_TNONE: return "no value"; case LUA_TNIL: return "nil"; case LUA_TBOOLEAN: return "boolean"; case LUA_TNUMBER: return "number"; case LUA_TSTRING: return "string"; case LUA_TTABLE: return "table"; case LUA_TFUNCTION: return "function"; default: return "userdata"; } }
int lua_isnumber(lua_State *L, int i) { val *v = acceptable(L, i), x; return v && tonumber(*v, x); }
int lua_isstring(lua_State *L, int i) { val *v = acceptable(L, i); return v && (v->t == LUA_TSTRING || v->t == LUA_TNUMBER); }
int lua_isinteger(lua_State *L, int i) { val *v = acceptable(L, i); return v && v->t == LUA_TNUMBER && v->isint; }
int lua_iscfunction(lua_State *L, int i) { val *v = acceptable(L, i); return v && v->t == LUA_TFUNCTION; }
lua_Integer lua_tointegerx(lua_State *L, int i, int *ok) { val *v = acceptable(L, i); long long r = 0; bool b = v && tointeger(*v, r); if (ok) *ok = b; return b ? r : 0; }
lua_Number lua_tonumberx(lua_State *L, int i, int *ok) { val *v = acceptable(L, i), x; bool b = v && tonumber(*v, x); if (ok) *ok = b; return b ? (x.isint ? (double)x.i : x.n) : 0; }
int lua_toboolean(lua_State *L, int i) { val *v = acceptable(L, i); return v && v->t != LUA_TNIL && !(v->t == LUA_TBOOLEAN && !v->i); }
const char *lua_tolstring(lua_State *L, int i, size_t *len) { val *v = acceptable(L, i); if (v && v->t == LUA_TNUMBER) { char b[40]; int k = sizeof b; long long m; if (!tointeger(*v, m)) *v = mkstr(L, "<real>", 6); else { if (!v->isint) { b[--k] = '0'; b[--k] = '.'; } unsigned long long u = m < 0 ? 0ull - (unsigned long long)m : m; do { b[--k] = '0' + u % 10; u /= 10; } while (u); if (m < 0) b[--k] = '-'; *v = mkstr(L, b + k, sizeof b - k); } } if (!v || v->t != LUA_TSTRING) { if (len) *len = 0; return nullptr; } str *s = (str *)v->p; if (len) *len = s->n; return s->p; }
size_t lua_rawlen(lua_State *L, int i) { val *v = acceptable(L, i); if (!v) return 0; if (v->t == LUA_TSTRING) return ((str *)v->p)->n; if (v->t != LUA_TTABLE) return 0; size_t n = 0; while (tget((tab *)v->p, mkint(n + 1)).t != LUA_TNIL) n++; return n; }
lua_CFunction lua_tocfunction(lua_State *L, int i) { val *v = acceptable(L, i); return v && v->t == LUA_TFUNCTION ? ((fn *)v->p)->f : nullptr; }
const void *lua_topointer(lua_State *L, int i) { val *v = acceptable(L, i); return v ? v->p : nullptr; }
int lua_rawequal(lua_State *L, int a, int b) { val *x = acceptable(L, a), *y = acceptable(L, b); return x && y && same(*x, *y); }
int lua_compare(lua_State *L, int a, int b, int op) { NEED(op == LUA_OPEQ, "lua-model-compare"); return lua_rawequal(L, a, b); }
void lua_pushnil(lua_State *L) { push(L, nil()); }
void lua_pushnumber(lua_State *L, lua_Number n) { val v = mkint(0); v.isint = 0; v.n = n; push(L, v); }
void lua_pushinteger(lua_State *L, lua_Integer n) { push(L, mkint(n)); }
void lua_pushboolean(lua_State *L, int b) { val v = nil(); v.t = LUA_TBOOLEAN; v.i = b != 0; push(L, v); }
const char *lua_pushlstring(lua_State *L, const char *s, size_t n) { val v = mkstr(L, s, n); push(L, v); return ((str *)v.p)->p; }
const char *lua_pushstring(lua_State *L, const char *s) { if (!s) { lua_pushnil(L); return nullptr; } return lua_pushlstring(L, s, strlen(s)); }
void lua_pushcclosure(lua_State *L, lua_CFunction f, int n) { NEED(n == 0, "lua-model-closure"); fn *x = (fn *)mem(L, sizeof(fn)); x->f = f; val v = nil(); v.t = LUA_TFUNCTION; v.p = x; push(L, v); }
void lua_createtable(lua_State *L, int, int) { push(L, mktab(L)); }
static int result(lua_State *L) { return L->stk[L->top - 1].t; }
int lua_getglobal(lua_State *L, const char *k) { push(L, tget(L->globals, mkstr(L, k, strlen(k)))); return result(L); }
void lua_setglobal(lua_State *L, const char *k) { tset(L, L->globals, mkstr(L, k, strlen(k)), pop(L)); }
int lua_rawget(lua_State *L, int i) { tab *t = table(L, i); NEED(t, "lua-model-registry"); val k = pop(L); push(L, tget(t, k)); return result(L); }
int lua_gettable(lua_State *L, int i) { return lua_rawget(L, i); }
int lua_rawgeti(lua_State *L, int i, lua_Integer n) { if (i == LUA_REGISTRYINDEX) { if (n == LUA_RIDX_GLOBALS) { val v = nil(); v.t = LUA_TTABLE; v.p = L->globals; push(L, v); } else if (n < 0) push(L, nil()); else { NEED(n >= 3 && n < REFS && L->live[n], "lua-reference"); push(L, L->ref[n]); } return result(L); } tab *t = table(L, i); push(L, tget(t, mkint(n))); return result(L); }
int lua_geti(lua_State *L, int i, lua_Integer n) { return lua_rawgeti(L, i, n); }
int lua_getfield(lua_State *L, int i, const char *k) { tab *t = table(L, i); NEED(t, "lua-model-registry"); push(L, tget(t, mkstr(L, k, strlen(k)))); return result(L); }
void lua_rawset(lua_State *L, int i) { tab *t = table(L, i); NEED(t, "lua-model-registry"); val v = pop(L), k = pop(L); tset(L, t, k, v); }
void lua_settable(lua_State *L, int i) { lua_rawset(L, i); }
void lua_rawseti(lua_State *L, int i, lua_Integer n) { tab *t = table(L, i); NEED(t, "lua-model-registry"); tset(L, t, mkint(n), pop(L)); }
void lua_seti(lua_State *L, int i, lua_Integer n) { lua_rawseti(L, i, n); }
void lua_setfield(lua_State *L, int i, const char *k) { tab *t = table(L, i); NEED(t, "lua-model-registry"); tset(L, t, mkstr(L, k, strlen(k)), pop(L)); }
int lua_next(lua_State *L, int i) { tab *t = table(L, i); NEED(t, "lua-model-registry"); val k = pop(L); int j = 0; if (k.t != LUA_TNIL) { while (j < t->n && !same(t->e[j].k, k)) j++; NEED(j < t->n, "lua-next"); j++; } if (j >= t->n) return 0; push(L, t->e[j].k); push(L, t->e[j].v); return 1; }
void lua_len(lua_State *L, int i) { size_t n = lua_rawlen(L, i); push(L, mkint(n)); }
lua_Integer luaL_len(lua_State *L, int i) { return lua_rawlen(L, i); }
int lua_error(lua_State *L) { NEED(count(L) > 0, "lua-stack-empty"); throw lua_throw{LUA_ERRRUN}; }
int luaL_ref(lua_State *L, int t) { NEED(t == LUA_REGISTRYINDEX, "lua-model-ref"); val v = pop(L); if (v.t == LUA_TNIL) return LUA_REFNIL; int r = 3; while (r < REFS && L->live[r]) r++; NEED(r < REFS, "lua-model-refs"); L->live[r] = 1; L->ref[r] = v; return r; }
void luaL_unref(lua_State *L, int t, int r) { NEED(t == LUA_REGISTRYINDEX, "lua-model-ref"); if (r < 0) return; NEED(r >= 3 && r < REFS && L->live[r], "lua-reference"); L->live[r] = 0; }
int lua_status(lua_State *) { return LUA_OK; }
int lua_gc(lua_State *, int, int) { return 0; }
int lua_pcallk(lua_State *L, int na, int nr, int msgh, lua_KContext, lua_KFunction) { NEED(msgh == 0, "lua-model-handler"); NEED(na >= 0 && na + 1 <= count(L), "lua-call"); int func = L->top - na - 1, base = L->base, limit = L->limit; val f = L->stk[func]; int status = LUA_OK;
  try { if (f.t != LUA_TFUNCTION) { lua_pushstring(L, "attempt to call a non-function"); throw lua_throw{LUA_ERRRUN}; } L->base = func + 1; L->limit = L->top + LUA_MINSTACK; int n = ((fn *)f.p)->f(L); NEED(n >= 0 && n <= count(L), "lua-results"); int want = nr == LUA_MULTRET ? n : nr; for (int i = 0; i < want; i++) L->stk[func + i] = i < n ? L->stk[L->top - n + i] : nil(); L->top = func + want; }
  catch (const lua_throw &e) { status = e.status; L->stk[func] = L->stk[L->top - 1]; L->top = func + 1; }
  L->base = base; L->limit = limit < L->top ? L->top : limit; return status; }
void lua_callk(lua_State *L, int na, int nr, lua_KContext, lua_KFunction) { int e = lua_pcallk(L, na, nr, 0, 0, nullptr); if (e) throw lua_throw{e}; }
}
int minilua_live_refs(lua_State *L) { int n = 0; for (int i = 0; i < REFS; i++) n += L->live[i]; return n; }
