// An external theory with the documented interface; P is its prefix.
#define CAT_(a, b) a##_##b
#define CAT(a, b) CAT_(a, b)
#define F(n) CAT(P, n)
#define STR_(x) #x
#define STR(x) STR_(x)
#define PRE STR(P)
typedef int F(value_type_t);
typedef struct F(value) { F(value_type_t) type; union { int int_number; double double_number; clingo_symbol_t symbol; }; } F(value_t);
typedef bool (*F(ast_callback_t))(clingo_ast_t *ast, void *data);
typedef struct F(theory) { int id; int models, stats; char opt[256]; } F(theory_t);
static int failing(F(theory_t) *t, char const *fn) {
    if (strcmp(vf_fail, fn) == 0) {
        vf_fail[0] = 0;
        char msg[64];
        snprintf(msg, sizeof(msg), "boom %s", fn);
        clingo_set_error(vf_code, msg);
        return 1;
    }
    return 0;
}
bool F(create)(F(theory_t) **theory) {
    vf_log("create " PRE);
    if (failing(0, "create")) { return false; }
    F(theory_t) *t = (F(theory_t)*)calloc(1, sizeof(*t));
    t->id = ++vf_ids;
    *theory = t;
    return true;
}
bool F(destroy)(F(theory_t) *t) { vf_log("destroy " PRE " %d", t->id); free(t); return true; }
bool F(version)(int *a, int *b, int *c) { *a = vf_version[0]; *b = vf_version[1]; *c = vf_version[2]; return true; }
bool F(configure)(F(theory_t) *t, char const *k, char const *v) { vf_log("configure " PRE " %d %s=%s", t->id, k, v); return !failing(t, "configure"); }
bool F(register)(F(theory_t) *t, clingo_control_t *c) { vf_log("register " PRE " %d %d", t->id, vf_control(c)); return !failing(t, "register"); }
bool F(prepare)(F(theory_t) *t, clingo_control_t *c) { vf_log("prepare " PRE " %d %d", t->id, vf_control(c)); return !failing(t, "prepare"); }
// every alternative of a pool is a statement
bool F(rewrite_ast)(F(theory_t) *t, clingo_ast_t *ast, F(ast_callback_t) add, void *data) {
    vf_log("rewrite " PRE " %d %s", t->id, vf_text(ast));
    if (failing(t, "rewrite")) { return false; }
    struct { F(ast_callback_t) add; void *data; } d = {add, data};
    return clingo_ast_unpool(ast, clingo_ast_unpool_type_all, (bool (*)(clingo_ast_t *, void *))add, data);
}
static bool F(parse)(char const *v, void *data) {
    F(theory_t) *t = (F(theory_t)*)data;
    vf_log("parse " PRE " %d %s", t->id, v);
    snprintf(t->opt, sizeof(t->opt), "%s", v);
    return true;
}
bool F(register_options)(F(theory_t) *t, clingo_options_t *o) {
    vf_log("options " PRE " %d", t->id);
    if (failing(t, "options")) { return false; }
    return clingo_options_add(o, "Theory", PRE "-x", "an option", F(parse), t, false, "<v>");
}
bool F(validate_options)(F(theory_t) *t) { vf_log("validate " PRE " %d %s", t->id, t->opt); return !failing(t, "validate"); }
bool F(on_model)(F(theory_t) *t, clingo_model_t *m) {
    uint64_t n;
    clingo_model_number(m, &n);
    vf_log("model " PRE " %d %d", t->id, (int)n);
    if (failing(t, "model")) { return false; }
    clingo_symbol_t args[2], s;
    clingo_symbol_create_number(t->id, &args[0]);
    clingo_symbol_create_number((int)n, &args[1]);
    return clingo_symbol_create_function(PRE, args, 2, true, &s) && clingo_model_extend(m, &s, 1);
}
bool F(on_statistics)(F(theory_t) *t, clingo_statistics_t *step, clingo_statistics_t *accu) {
    vf_log("statistics " PRE " %d", t->id);
    if (failing(t, "statistics")) { return false; }
    ++t->stats;
    return vf_stat(step, PRE, t->id) && vf_stat(accu, PRE, 100 * t->stats + t->id);
}
bool F(lookup_symbol)(F(theory_t) *t, clingo_symbol_t s, size_t *index) {
    for (size_t i = 0; i < vf_nsym; ++i) { if (clingo_symbol_is_equal_to(vf_sym[i], s)) { *index = i + 1; return true; } }
    return false;
}
clingo_symbol_t F(get_symbol)(F(theory_t) *t, size_t index) { return vf_sym[index - 1]; }
bool F(assignment_has_value)(F(theory_t) *t, uint32_t thr, size_t index) { return vf_val[thr][index].has; }
void F(assignment_get_value)(F(theory_t) *t, uint32_t thr, size_t index, F(value_t) *v) {
    memset(v, 0x5a, sizeof(*v));
    v->type = vf_val[thr][index].type;
    if (v->type == 0) { v->int_number = vf_val[thr][index].i; }
    else if (v->type == 1) { v->double_number = vf_val[thr][index].d; }
    else { v->symbol = vf_val[thr][index].s; }
}
void F(assignment_begin)(F(theory_t) *t, uint32_t thr, size_t *index) { *index = 0; }
bool F(assignment_next)(F(theory_t) *t, uint32_t thr, size_t *index) {
    while (++*index <= vf_nsym) { if (vf_val[thr][*index].has) { return true; } }
    return false;
}
