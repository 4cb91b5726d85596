#pragma once
extern "C" {
#include <lua.h>
#include <lualib.h>
#include <lauxlib.h>
}
extern int minilua_open, minilua_fail_checkstack; // open states; make lua_checkstack fail
int minilua_live_refs(lua_State *);
