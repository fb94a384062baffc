#include "shim.hh"
#include <set>

namespace {
std::mutex mtx;
std::vector<json> entries;
std::map<void const *, std::string> ids;
std::map<std::string, void *> byid;
std::map<std::string, int> counters;
struct Script { std::string f; int skip; int times; int act; json a; };
std::deque<Script> scripts;
std::atomic<int> recording{0};
std::deque<std::string> strings;
std::set<std::string> only;

void *lib() {
    static void *h = [] {
        void *p = dlopen("libclingo.so.4", RTLD_NOW | RTLD_LOCAL | RTLD_DEEPBIND);
        if (!p) { std::fprintf(stderr, "shim: %s\n", dlerror()); std::abort(); }
        return p;
    }();
    return h;
}
} // namespace

void *vf_real(char const *name) { return dlsym(lib(), name); }
bool vf_quiet() { return recording == 0; }
void vf_missing(char const *name) { std::fprintf(stderr, "shim: function %s without answer\n", name); std::abort(); }
std::mutex &vf_mutex() { return mtx; }
bool vf_before_fault(char const *name) {
    // these always have their effect
    static char const *keep[] = {"solve_handle_close", "backend_end", "program_builder_end", "solve_handle_cancel"};
    for (auto k : keep) { if (!std::strcmp(k, name)) { return true; } }
    return false;
}
void vf_after_fault(json const &a) {
    static auto set = (void (*)(clingo_error_t, char const *))vf_real("clingo_set_error");
    set(a["code"].get<int>(), a["msg"].is_null() ? nullptr : a["msg"].get<std::string>().c_str());
}
json vf_sym(clingo_symbol_t s) {
    static auto size = (bool (*)(clingo_symbol_t, size_t *))vf_real("clingo_symbol_to_string_size");
    static auto str = (bool (*)(clingo_symbol_t, char *, size_t))vf_real("clingo_symbol_to_string");
    size_t n = 0;
    if (!size(s, &n)) { return "?"; }
    std::string r(n, 0);
    if (!str(s, &r[0], n)) { return "?"; }
    r.pop_back();
    return r;
}
clingo_symbol_t vf_to_sym(json const &a) {
    static auto parse = (bool (*)(char const *, clingo_logger_t, void *, unsigned, clingo_symbol_t *))vf_real("clingo_parse_term");
    clingo_symbol_t s = 0;
    parse(a.get<std::string>().c_str(), nullptr, nullptr, 0, &s);
    return s;
}
void *vf_ptr(json const &x) {
    if (x.is_null()) { return nullptr; }
    if (x.is_string()) { std::lock_guard<std::mutex> g(mtx); auto it = byid.find(x.get<std::string>()); return it == byid.end() ? nullptr : it->second; }
    return (void *)(size_t)x.get<size_t>();
}
char const *vf_str(json const &x) {
    if (x.is_null()) { return nullptr; }
    std::lock_guard<std::mutex> g(mtx);
    strings.push_back(x.get<std::string>());
    return strings.back().c_str();
}
std::string vf_handle(char const *kind, void const *p) {
    std::lock_guard<std::mutex> g(mtx);
    auto it = ids.find(p);
    if (it != ids.end() && it->second.compare(0, std::strlen(kind), kind) == 0) { return it->second; }
    std::string n = std::string(kind) + std::to_string(++counters[kind]);
    ids[p] = n;
    byid[n] = const_cast<void *>(p);
    return n;
}
size_t vf_begin(char const *f) {
    std::lock_guard<std::mutex> g(mtx);
    entries.push_back({{"f", f}, {"a", json::object()}});
    return entries.size() - 1;
}
void vf_put(size_t e, char const *what, char const *name, json v) {
    std::lock_guard<std::mutex> g(mtx);
    if (e >= entries.size()) { return; }
    if (name) { entries[e][what][name] = std::move(v); }
    else {
        entries[e][what] = std::move(v);
        // a freed object's address may be used again
        auto &x = entries[e];
        std::string f = x["f"];
        char const *arg = nullptr;
        if (f == "control_free") { arg = "control"; }
        else if (f == "solve_handle_close") { arg = "handle"; }
        if (arg && x["a"][arg].is_string()) {
            for (auto it = ids.begin(); it != ids.end(); ++it) { if (it->second == x["a"][arg]) { ids.erase(it); break; } }
        }
    }
}
int vf_script(char const *f, json &a) {
    std::lock_guard<std::mutex> g(mtx);
    for (auto it = scripts.begin(); it != scripts.end(); ++it) {
        if (it->f != f) { continue; }
        if (it->skip > 0) { --it->skip; continue; }
        int act = it->act;
        a = it->a;
        if (it->times > 0 && --it->times == 0) { scripts.erase(it); }
        if (act == VF_FAULT) {
            static auto set = (void (*)(clingo_error_t, char const *))vf_real("clingo_set_error");
            if (!vf_before_fault(f)) { set(a["code"].get<int>(), a["msg"].is_null() ? nullptr : a["msg"].get<std::string>().c_str()); }
        }
        return act;
    }
    return VF_NONE;
}

// events sent to the callback before the search: lower bounds or results
void vf_events(json const &a, clingo_solve_event_callback_t notify, void *data) {
    if (!notify) { return; }
    for (auto &x : a) {
        bool goon = true;
        if (x.count("unsat")) {
            std::vector<int64_t> v;
            for (auto &y : x["unsat"]) { v.push_back(vf_get<int64_t>(y)); }
            void *args[2] = {v.data(), (void *)v.size()};
            notify(clingo_solve_event_type_unsat, args, data, &goon);
        }
        else if (x.count("finish")) {
            clingo_solve_result_bitset_t r = x["finish"].get<unsigned>();
            notify(clingo_solve_event_type_finish, &r, data, &goon);
        }
    }
}

#define EXPORT extern "C" __attribute__((visibility("default")))
EXPORT clingo_ast_attribute_names_t g_clingo_ast_attribute_names;
EXPORT clingo_ast_constructors_t g_clingo_ast_constructors;
clingo_ast_attribute_names_t g_clingo_ast_attribute_names{nullptr, 0};
clingo_ast_constructors_t g_clingo_ast_constructors{nullptr, 0};
namespace {
struct InitTables {
    InitTables() {
        g_clingo_ast_attribute_names = *(clingo_ast_attribute_names_t *)vf_real("g_clingo_ast_attribute_names");
        g_clingo_ast_constructors = *(clingo_ast_constructors_t *)vf_real("g_clingo_ast_constructors");
    }
} initTables;
} // namespace

// arguments are integers or pointers only, so forwarding a fixed number of words works
EXPORT bool clingo_ast_build(clingo_ast_type_t type, clingo_ast_t **ast, ...) {
    using F = bool (*)(clingo_ast_type_t, clingo_ast_t **, ...);
    static F const real = (F)vf_real("clingo_ast_build");
    va_list ap;
    va_start(ap, ast);
    unsigned long w[20];
    for (auto &x : w) { x = va_arg(ap, unsigned long); }
    va_end(ap);
    auto go = [&] { return real(type, ast, w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9], w[10], w[11], w[12], w[13], w[14], w[15], w[16], w[17], w[18], w[19]); };
    if (vf_quiet()) { return go(); }
    Call c("ast_build");
    c.in("type", type);
    // asts used as arguments
    json used = json::array();
    size_t i = 0;
    if ((size_t)type < g_clingo_ast_constructors.size) {
        auto &k = g_clingo_ast_constructors.constructors[type];
        for (size_t j = 0; j < k.size; ++j) {
            switch (k.arguments[j].type) {
                case clingo_ast_attribute_type_ast:
                case clingo_ast_attribute_type_optional_ast: { if (w[i]) { used.push_back(c.handle("ast", (void *)w[i])); } ++i; break; }
                case clingo_ast_attribute_type_ast_array: { auto p = (clingo_ast_t **)w[i]; for (size_t l = 0; l < w[i + 1]; ++l) { used.push_back(c.handle("ast", p[l])); } i += 2; break; }
                case clingo_ast_attribute_type_string_array: { i += 2; break; }
                default: { ++i; }
            }
        }
    }
    c.in("used", used);
    json a;
    int act = c.script(a);
    if (act == VF_FAULT) { c.ret(false); return false; }
    bool r = go();
    if (r) { c.out("ast", c.handle("ast", *ast)); }
    c.ret(r);
    return r;
}

// control of the interposer
EXPORT void vf_record(int on) { recording = on; }
EXPORT void vf_clear() { std::lock_guard<std::mutex> g(mtx); entries.clear(); }
EXPORT void vf_reset() { std::lock_guard<std::mutex> g(mtx); entries.clear(); scripts.clear(); ids.clear(); byid.clear(); counters.clear(); }
// {"f":..., "skip":n, "times":n (0: for good), "fault":{"code":c,"msg":m}} or {..., "answer":{...}}
EXPORT void vf_add_script(char const *s) {
    auto j = json::parse(s);
    std::lock_guard<std::mutex> g(mtx);
    bool fault = j.count("fault") > 0;
    int act = fault ? VF_FAULT : j.count("events") ? VF_EVENTS : VF_ANSWER;
    scripts.push_back({j["f"], j.value("skip", 0), j.value("times", 1), act, j[act == VF_FAULT ? "fault" : act == VF_EVENTS ? "events" : "answer"]});
}
EXPORT int vf_pending() { std::lock_guard<std::mutex> g(mtx); return (int)scripts.size(); }
EXPORT void vf_drop_scripts() { std::lock_guard<std::mutex> g(mtx); scripts.clear(); }
// the calls so far as a JSON list; valid until the next call of this function
EXPORT char const *vf_log() {
    static std::string s;
    std::lock_guard<std::mutex> g(mtx);
    s = json(entries).dump(-1, ' ', false, json::error_handler_t::replace);
    return s.c_str();
}

// ----- ownership: which engine objects are alive or open, and what was done to them that must not be
namespace {
struct Own {
    std::mutex m;
    bool on = false;
    int serial = 0, depth = 0;
    struct Kid { int ctl; bool open; };
    std::map<void const *, std::pair<int, bool>> ctl; // serial number, alive
    std::map<int, bool> alive;
    std::map<std::pair<std::string, void const *>, Kid> kid;
    std::map<void const *, bool> handle;
    std::map<void const *, int> ast;
    json bad = json::array();
    void err(std::string const &s) { bad.push_back(s); }
} own;
bool starts(char const *f, char const *p) { return !std::strncmp(f, p, std::strlen(p)); }
}
void vf_own_in(char const *f, VfRefs const &ins) {
    std::lock_guard<std::mutex> g(own.m);
    if (!own.on) { return; }
    for (auto &x : ins) {
        void const *p = x.second;
        if (x.first == "control") {
            auto it = own.ctl.find(p);
            if (it == own.ctl.end()) { continue; }
            bool end = !std::strcmp(f, "control_free");
            if (!it->second.second) { own.err(end ? "control freed twice" : std::string(f) + " on a freed control"); }
            else if (end) {
                it->second.second = false;
                own.alive[it->second.first] = false;
                for (auto &k : own.kid) { if (k.second.ctl == it->second.first && k.second.open) { own.err("control freed before its " + k.first.first); } }
            }
        }
        else if (x.first == "solve_handle") {
            auto it = own.handle.find(p);
            bool end = !std::strcmp(f, "solve_handle_close");
            if (it == own.handle.end()) { continue; }
            if (!it->second) { own.err(end ? "solve handle closed twice" : std::string(f) + " on a closed solve handle"); }
            else if (end) {
                it->second = false;
                auto k = own.kid.find(x);
                if (k != own.kid.end()) { k->second.open = false; }
            }
        }
        else if (x.first == "ast") {
            int &n = own.ast[p];
            if (!std::strcmp(f, "ast_acquire")) { ++n; }
            else if (n <= 0 && !std::strcmp(f, "ast_release")) { own.err("ast released too often"); }
            else if (!std::strcmp(f, "ast_release")) { --n; }
            else if (n <= 0 && own.depth == 0) { own.err(std::string(f) + " on a released ast"); }
        }
        else {
            auto k = own.kid.find(x);
            if (k == own.kid.end()) { continue; }
            if (k->second.ctl && !own.alive[k->second.ctl]) { own.err(std::string(f) + " after the control was freed"); }
            bool bk = x.first == "backend", pb = x.first == "program_builder";
            if (!bk && !pb) { continue; }
            bool begin = !std::strcmp(f, bk ? "backend_begin" : "program_builder_begin"), end = !std::strcmp(f, bk ? "backend_end" : "program_builder_end");
            if (begin && k->second.open) { own.err(x.first + " opened twice"); }
            if (!begin && !k->second.open) { own.err(std::string(f) + " on a closed " + x.first); }
            if (end) { k->second.open = false; }
        }
    }
    if (starts(f, "ast_parse") || starts(f, "ast_unpool")) { ++own.depth; }
}
void vf_own_out(char const *f, VfRefs const &ins, VfRefs const &outs, bool ok) {
    std::lock_guard<std::mutex> g(own.m);
    if (!own.on) { return; }
    if (starts(f, "ast_parse") || starts(f, "ast_unpool")) { --own.depth; }
    if (!ok) { return; }
    int c = 0;
    for (auto &x : ins) {
        if (x.first == "control" && own.ctl.count(x.second)) { c = own.ctl[x.second].first; }
        if (!std::strcmp(f, "backend_begin") || !std::strcmp(f, "program_builder_begin")) { auto k = own.kid.find(x); if (k != own.kid.end()) { k->second.open = true; } }
    }
    for (auto &x : outs) {
        if (x.first == "control") { own.ctl[x.second] = {++own.serial, true}; own.alive[own.serial] = true; }
        else if (x.first == "ast") { ++own.ast[x.second]; }
        else if (x.first == "solve_handle") { own.handle[x.second] = true; own.kid[x] = {c, true}; }
        else if (starts(f, "control_") || starts(f, "program_builder_init")) {
            auto k = own.kid.find(x);
            if (k == own.kid.end() || k->second.ctl != c) { own.kid[x] = {c, false}; }
        }
    }
}
EXPORT void vf_own_reset(int on) {
    std::lock_guard<std::mutex> g(own.m);
    own.on = on;
    own.serial = own.depth = 0;
    own.ctl.clear(); own.alive.clear(); own.kid.clear(); own.handle.clear(); own.ast.clear();
    own.bad = json::array();
}
EXPORT char const *vf_own() {
    static std::string s;
    vf_clear();
    std::lock_guard<std::mutex> g(own.m);
    int c = 0, h = 0, b = 0, p = 0, a = 0;
    for (auto &x : own.ctl) { c += x.second.second; }
    for (auto &x : own.handle) { h += x.second; }
    for (auto &x : own.kid) { b += x.first.first == "backend" && x.second.open; p += x.first.first == "program_builder" && x.second.open; }
    for (auto &x : own.ast) { a += x.second > 0; }
    s = json{{"control", c}, {"handle", h}, {"backend", b}, {"builder", p}, {"ast", a}, {"bad", own.bad}}.dump();
    return s.c_str();
}
