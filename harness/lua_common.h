// Lua states for the harnesses.  Contents are built through the Lua C API, so
// the same code runs on the model (minilua.cpp) and on the real library.
#pragma once
#include "sym.h"
#ifdef MINILUA
#include "minilua.h"
#endif
#include <ristra/ristra-config.h>
#include <array>
#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <vector>
#include <stdlib.h>
#include <ristra/embedded/embed_lua.h>
using namespace ristra::embedded;
// the loader: no Lua compiler, a chunk is a C function chosen by the harness
static lua_CFunction chunk_fn = nullptr; static int chunk_status = LUA_OK; static bool no_memory = false; static std::string chunk_name;
static int load_chunk(lua_State *L, const char *name) { chunk_name = name; if (chunk_status) { lua_pushstring(L, "cannot load"); return chunk_status; } lua_pushcfunction(L, chunk_fn); return LUA_OK; }
static void *lua_mem(void *, void *p, size_t, size_t n) { if (!n) { free(p); return nullptr; } return realloc(p, n); }
extern "C" {
int luaL_loadfilex(lua_State *L, const char *name, const char *) { return load_chunk(L, name); }
int luaL_loadstring(lua_State *L, const char *text) { return load_chunk(L, text); }
int luaL_loadbufferx(lua_State *L, const char *text, size_t n, const char *, const char *) { return load_chunk(L, text); }
lua_State *luaL_newstate(void) { return no_memory ? nullptr : lua_newstate(lua_mem, nullptr); }
}
static int nothing(lua_State *) { return 0; }
static std::string dec(long long v) { std::string r; bool n = v < 0; unsigned long long u = n ? 0ull - v : v; do { r.insert(r.begin(), char('0' + u % 10)); u /= 10; } while (u); if (n) r.insert(r.begin(), '-'); return r; }
static bool str_is(lua_State *L, int i, const std::string &s) { size_t n = 0; const char *p = lua_tolstring(L, i, &n); return p && std::string(p, n) == s; }
static int live_refs(lua_State *L) {
#ifdef MINILUA
  return minilua_live_refs(L);
#else
  return 0;
#endif
}
// values the program already keeps on the stack; they must stay
struct bystanders { lua_State *L; int n; bystanders(lua_State *l) : L(l), n(sym_pick("bystanders", 0, 2)) { for (int i = 0; i < n; i++) lua_pushinteger(L, 700 + i); } void check(const char *label) { bool ok = lua_gettop(L) == n; for (int i = 0; ok && i < n; i++) ok = lua_type(L, i + 1) == LUA_TNUMBER && lua_tointeger(L, i + 1) == 700 + i; sym_assert(ok, label); } };
template<class F> static bool throws(F f) { try { f(); } catch (const std::runtime_error &) { return true; } return false; }
