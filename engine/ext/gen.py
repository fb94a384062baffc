"""Builds the CFFI module of the external theory (gen.py OUTDIR INCLUDE)."""
import os
import sys
import cffi

out, inc = sys.argv[1:3]
here = os.path.dirname(os.path.abspath(__file__))
decl = """
typedef uint64_t clingo_symbol_t;
typedef struct clingo_ast clingo_ast_t;
typedef struct clingo_control clingo_control_t;
typedef struct clingo_options clingo_options_t;
typedef struct clingo_model clingo_model_t;
typedef struct clingo_statistic clingo_statistics_t;
void vf_reset(void);
char const *vf_take(void);
void vf_failing(char const *fn, int code);
void vf_set_version(int a, int b, int c);
void vf_add_symbol(char const *text);
void vf_put(uint32_t thr, size_t index, int type, int i, double d, char const *s);
"""
one = """
typedef int PREFIX_value_type_t;
typedef struct PREFIX_value { PREFIX_value_type_t type; union { int int_number; double double_number; clingo_symbol_t symbol; }; } PREFIX_value_t;
typedef bool (*PREFIX_ast_callback_t)(clingo_ast_t *ast, void *data);
typedef struct PREFIX_theory PREFIX_theory_t;
extern "Python" bool pyPREFIX_rewrite(clingo_ast_t *ast, void *data);
bool PREFIX_create(PREFIX_theory_t **theory);
bool PREFIX_destroy(PREFIX_theory_t *theory);
bool PREFIX_version(int *major, int *minor, int *patch);
bool PREFIX_register(PREFIX_theory_t *theory, clingo_control_t* control);
bool PREFIX_rewrite_ast(PREFIX_theory_t *theory, clingo_ast_t *ast, PREFIX_ast_callback_t add, void *data);
bool PREFIX_prepare(PREFIX_theory_t *theory, clingo_control_t* control);
bool PREFIX_register_options(PREFIX_theory_t *theory, clingo_options_t* options);
bool PREFIX_validate_options(PREFIX_theory_t *theory);
bool PREFIX_on_model(PREFIX_theory_t *theory, clingo_model_t* model);
bool PREFIX_on_statistics(PREFIX_theory_t *theory, clingo_statistics_t* step, clingo_statistics_t* accu);
bool PREFIX_lookup_symbol(PREFIX_theory_t *theory, clingo_symbol_t symbol, size_t *index);
clingo_symbol_t PREFIX_get_symbol(PREFIX_theory_t *theory, size_t index);
void PREFIX_assignment_begin(PREFIX_theory_t *theory, uint32_t thread_id, size_t *index);
bool PREFIX_assignment_next(PREFIX_theory_t *theory, uint32_t thread_id, size_t *index);
bool PREFIX_assignment_has_value(PREFIX_theory_t *theory, uint32_t thread_id, size_t index);
void PREFIX_assignment_get_value(PREFIX_theory_t *theory, uint32_t thread_id, size_t index, PREFIX_value_t *value);
bool PREFIX_configure(PREFIX_theory_t *theory, char const *key, char const *value);
"""
src = open(os.path.join(here, "theory.c")).read()
inc_ = open(os.path.join(here, "theory.inc")).read()
for p in ("vfa", "vfb"):
    decl += one.replace("PREFIX", p)
    src += "\n#define P %s\n#define failing CAT(P, failing)\n" % p + inc_ + "".join("\n#undef " + x for x in ("P", "CAT_", "CAT", "F", "STR_", "STR", "PRE", "failing")) + "\n"
ffi = cffi.FFI()
ffi.cdef(decl)
ffi.set_source("_vftheory", src, include_dirs=[inc], libraries=["clingo"], extra_compile_args=["-w"])
ffi.compile(tmpdir=out)
