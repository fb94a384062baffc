// Lua module capturing the standard error stream
#include <cstdio>
#include <lua.hpp>
#include <string>
#include <unistd.h>
static int old = -1;
static FILE *tmp = nullptr;
extern "C" __attribute__((visibility("default"))) int luaopen_vfcap(lua_State *L) {
    lua_newtable(L);
    lua_pushcfunction(L, [](lua_State *) {
        fflush(stderr);
        old = dup(2);
        tmp = tmpfile();
        dup2(fileno(tmp), 2);
        return 0;
    });
    lua_setfield(L, -2, "begin");
    lua_pushcfunction(L, [](lua_State *L) {
        fflush(stderr);
        dup2(old, 2);
        close(old);
        rewind(tmp);
        std::string s;
        char buf[4096];
        size_t n;
        while ((n = fread(buf, 1, sizeof buf, tmp)) > 0) { s.append(buf, n); }
        fclose(tmp);
        lua_pushlstring(L, s.data(), s.size());
        return 1;
    });
    lua_setfield(L, -2, "finish");
    return 1;
}
