// Lua module controlling the interposer (symbols resolved by the running interpreter)
#include <lua.hpp>
extern "C" {
void vf_record(int on);
void vf_clear();
void vf_reset();
void vf_add_script(char const *s);
void vf_drop_scripts();
char const *vf_log();
void vf_own_reset(int on);
char const *vf_own();
__attribute__((visibility("default"))) int luaopen_vfshim(lua_State *L) {
    lua_newtable(L);
    lua_pushcfunction(L, [](lua_State *L) { vf_record(lua_toboolean(L, 1)); return 0; });
    lua_setfield(L, -2, "record");
    lua_pushcfunction(L, [](lua_State *) { vf_clear(); return 0; });
    lua_setfield(L, -2, "clear");
    lua_pushcfunction(L, [](lua_State *) { vf_reset(); return 0; });
    lua_setfield(L, -2, "reset");
    lua_pushcfunction(L, [](lua_State *L) { vf_add_script(luaL_checkstring(L, 1)); return 0; });
    lua_setfield(L, -2, "script");
    lua_pushcfunction(L, [](lua_State *) { vf_drop_scripts(); return 0; });
    lua_setfield(L, -2, "drop");
    lua_pushcfunction(L, [](lua_State *L) { lua_pushstring(L, vf_log()); return 1; });
    lua_setfield(L, -2, "log");
    lua_pushcfunction(L, [](lua_State *L) { vf_own_reset(lua_toboolean(L, 1)); return 0; });
    lua_setfield(L, -2, "own_reset");
    lua_pushcfunction(L, [](lua_State *L) { lua_pushstring(L, vf_own()); return 1; });
    lua_setfield(L, -2, "own");
    return 1;
}
}
