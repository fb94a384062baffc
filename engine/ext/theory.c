#include <clingo.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static char vf_buf[1 << 16], vf_out[1 << 16], vf_fail[32];
static int vf_code, vf_ids, vf_version[3];
static size_t vf_nsym;
static clingo_symbol_t vf_sym[64];
static struct { int has, type, i; double d; clingo_symbol_t s; } vf_val[8][64];
static void vf_log(char const *fmt, ...) {
    size_t n = strlen(vf_buf);
    va_list a;
    va_start(a, fmt);
    vsnprintf(vf_buf + n, sizeof(vf_buf) - n - 2, fmt, a);
    va_end(a);
    strcat(vf_buf, "\n");
}
// controls are told apart by a constant
static int vf_control(clingo_control_t *c) {
    clingo_symbol_t s;
    int n = -1;
    if (clingo_control_get_const(c, "id", &s)) { clingo_symbol_number(s, &n); }
    return n;
}
static char const *vf_text(clingo_ast_t *ast) {
    static char buf[4096];
    size_t n;
    clingo_ast_to_string_size(ast, &n);
    clingo_ast_to_string(ast, buf, n);
    return buf;
}
static bool vf_stat(clingo_statistics_t *s, char const *key, int v) {
    uint64_t root, k;
    return clingo_statistics_root(s, &root) && clingo_statistics_map_add_subkey(s, root, key, clingo_statistics_type_value, &k) && clingo_statistics_value_set(s, k, v);
}
static clingo_symbol_t vf_parse(char const *text) {
    clingo_symbol_t s = 0;
    clingo_parse_term(text, 0, 0, 0, &s);
    return s;
}
void vf_reset(void) { vf_buf[0] = vf_fail[0] = 0; vf_ids = 0; vf_nsym = 0; memset(vf_val, 0, sizeof(vf_val)); }
char const *vf_take(void) { strcpy(vf_out, vf_buf); vf_buf[0] = 0; return vf_out; }
void vf_failing(char const *fn, int code) { strcpy(vf_fail, fn); vf_code = code; }
void vf_set_version(int a, int b, int c) { vf_version[0] = a; vf_version[1] = b; vf_version[2] = c; }
void vf_add_symbol(char const *text) { vf_sym[vf_nsym++] = vf_parse(text); }
void vf_put(uint32_t thr, size_t index, int type, int i, double d, char const *s) {
    vf_val[thr][index].has = type >= 0;
    vf_val[thr][index].type = type;
    vf_val[thr][index].i = i;
    vf_val[thr][index].d = d;
    if (type == 2) { vf_val[thr][index].s = vf_parse(s); }
}
