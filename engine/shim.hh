// Interposer between the bindings and the installed engine.
#pragma once
#include "frozen.h"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <map>
#include <mutex>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>

using json = nlohmann::ordered_json;
enum { VF_NONE = 0, VF_FAULT = 1, VF_ANSWER = 2, VF_EVENTS = 3 };

void *vf_real(char const *name);
bool vf_quiet();
void vf_missing(char const *name);
bool vf_before_fault(char const *name); // true: the real call is to be made before failing
void vf_after_fault(json const &a);
json vf_sym(clingo_symbol_t s);
void *vf_ptr(json const &x);
char const *vf_str(json const &x);
std::mutex &vf_mutex();
std::string vf_handle(char const *kind, void const *p);
size_t vf_begin(char const *f);
void vf_put(size_t e, char const *what, char const *name, json v);
int vf_script(char const *f, json &a);
void vf_events(json const &a, clingo_solve_event_callback_t notify, void *data);

inline json vf_json(char const *s) { return s ? json(s) : json(nullptr); }
inline json vf_json(clingo_location_t const &l) {
    return json::array({l.begin_file, l.end_file, l.begin_line, l.end_line, l.begin_column, l.end_column});
}
inline json vf_json(clingo_propagator_t const &p) {
    return {{"init", p.init != nullptr}, {"propagate", p.propagate != nullptr}, {"undo", p.undo != nullptr}, {"check", p.check != nullptr}, {"decide", p.decide != nullptr}};
}
inline json vf_json(clingo_ground_program_observer_t const &o) {
    json r = json::array();
#define X(f) if (o.f) r.push_back(#f);
    X(init_program) X(begin_step) X(end_step) X(rule) X(weight_rule) X(minimize) X(project) X(output_atom) X(output_term)
    X(external) X(assume) X(heuristic) X(acyc_edge) X(theory_term_number) X(theory_term_string) X(theory_term_compound)
    X(theory_element) X(theory_atom) X(theory_atom_with_guard)
#undef X
    return r;
}
inline json vf_json(clingo_script_t const &s) {
    return {{"execute", s.execute != nullptr}, {"call", s.call != nullptr}, {"callable", s.callable != nullptr}, {"main", s.main != nullptr}, {"version", vf_json(s.version)}};
}
inline json vf_json(clingo_application_t const &a) {
    return {{"main", a.main != nullptr}, {"program_name", a.program_name != nullptr}, {"version", a.version != nullptr},
            {"message_limit", a.message_limit != nullptr}, {"logger", a.logger != nullptr}, {"printer", a.printer != nullptr},
            {"register_options", a.register_options != nullptr}, {"validate_options", a.validate_options != nullptr}};
}
template <class T> json vf_span(T const *p, size_t n) {
    json r = json::array();
    for (size_t i = 0; i < n; ++i) { r.push_back(p[i]); }
    return r;
}
template <> inline json vf_span(clingo_symbol_t const *p, size_t n) { // also uint64_t
    json r = json::array();
    for (size_t i = 0; i < n; ++i) { r.push_back(vf_sym(p[i])); }
    return r;
}
inline json vf_span(char const *const *p, size_t n) {
    json r = json::array();
    for (size_t i = 0; i < n; ++i) { r.push_back(vf_json(p[i])); }
    return r;
}
inline json vf_span(char const **p, size_t n) { return vf_span(static_cast<char const *const *>(p), n); }
inline json vf_span(clingo_weighted_literal_t const *p, size_t n) {
    json r = json::array();
    for (size_t i = 0; i < n; ++i) { r.push_back(json::array({p[i].literal, p[i].weight})); }
    return r;
}
inline json vf_span(clingo_part_t const *p, size_t n) {
    json r = json::array();
    for (size_t i = 0; i < n; ++i) { r.push_back(json::array({p[i].name, vf_span(p[i].params, p[i].size)})); }
    return r;
}
template <class T> json vf_val(T const &v) { return json(v); }
template <class T> T vf_get(json const &a) {
    if (a.is_object()) {
        std::string s = a["num"];
        return s[0] == '-' ? (T)std::stoll(s) : (T)std::stoull(s);
    }
    return a.get<T>();
}
template <class T> void vf_set(json const &a, T &v) { v = vf_get<T>(a); }
clingo_symbol_t vf_to_sym(json const &a);
inline void vf_set_sym(json const &a, clingo_symbol_t &v) { v = vf_to_sym(a); }
inline void vf_copy(std::string const &s, char *out, size_t n) { std::strncpy(out, s.c_str(), n); if (n) { out[n - 1] = 0; } }
template <class T> inline void vf_out_arr(json const &a, T *out, size_t n) { for (size_t i = 0; i < n && i < a.size(); ++i) { out[i] = vf_get<T>(a[i]); } }
template <> inline void vf_out_arr(json const &a, clingo_symbol_t *out, size_t n) { for (size_t i = 0; i < n && i < a.size(); ++i) { out[i] = vf_to_sym(a[i]); } }
template <class T> void vf_out_span(json const &a, T const **out, size_t *n) {
    static std::deque<std::vector<T>> keep;
    std::lock_guard<std::mutex> g(vf_mutex());
    keep.emplace_back();
    for (auto &x : a) { keep.back().push_back(vf_get<T>(x)); }
    *out = keep.back().data();
    *n = a.size();
}
template <> inline void vf_out_span(json const &a, clingo_symbol_t const **out, size_t *n) {
    static std::deque<std::vector<clingo_symbol_t>> keep;
    keep.emplace_back();
    for (auto &x : a) { keep.back().push_back(vf_to_sym(x)); }
    *out = keep.back().data();
    *n = a.size();
}

// ownership of engine objects (see own.cc)
using VfRefs = std::vector<std::pair<std::string, void const *>>;
void vf_own_in(char const *f, VfRefs const &ins);
void vf_own_out(char const *f, VfRefs const &ins, VfRefs const &outs, bool ok);

struct Call {
    Call(char const *f) : f(f), e(vf_begin(f)) {}
    void in(char const *n, json v) { vf_put(e, "a", n, std::move(v)); }
    void out(char const *n, json v) { vf_put(e, "o", n, std::move(v)); }
    void ret(json v) {
        if (started) { vf_own_out(f, ins, outs, !(v.is_boolean() && v == false)); }
        vf_put(e, "r", nullptr, std::move(v));
    }
    int script(json &a) { started = true; vf_own_in(f, ins); return vf_script(f, a); }
    template <class T> json handle(char const *kind, T *p) {
        if (!p) { return nullptr; }
        (started ? outs : ins).emplace_back(kind, p);
        return vf_handle(kind, p);
    }
    template <class F> bool real(F f) { return f(); }
    char const *f;
    size_t e;
    bool started = false;
    VfRefs ins, outs;
};
