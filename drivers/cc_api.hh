// Operations of the interface, through the interposer (C24, C06)
#pragma once
#include <dlfcn.h>
#include <cmath>

struct Shim {
    template <class F> static F get(char const *n) {
        auto p = dlsym(RTLD_DEFAULT, n);
        if (!p) { std::cerr << "no interposer" << std::endl; std::exit(99); }
        return reinterpret_cast<F>(p);
    }
    static void record(bool on) { get<void (*)(int)>("vf_record")(on); }
    static void clear() { get<void (*)()>("vf_clear")(); get<void (*)()>("vf_drop_scripts")(); }
    static void reset() { record(false); get<void (*)()>("vf_reset")(); }
    static void script(json const &s) { get<void (*)(char const *)>("vf_add_script")(s.dump().c_str()); }
    static json log() { return json::parse(get<char const *(*)()>("vf_log")()); }
};

namespace api {

inline bool none(json const &a) { return a.is_string() && a == "null"; }
template <class T> std::vector<T> vec(json const &a) { std::vector<T> r; for (auto &x : a) { r.push_back(x.get<T>()); } return r; }
inline std::vector<WeightedLiteral> wl(json const &a) { std::vector<WeightedLiteral> r; for (auto &x : a) { r.emplace_back(x[0].get<int>(), x[1].get<int>()); } return r; }
inline SymbolVector syms(json const &a) { SymbolVector r; for (auto &x : a) { r.push_back(psym(x)); } return r; }
inline std::string str(json const &a) { return a.get<std::string>(); }
inline HeuristicType heut(std::string const &t) {
    return t == "level" ? HeuristicType::Level : t == "sign" ? HeuristicType::Sign : t == "factor" ? HeuristicType::Factor
         : t == "init" ? HeuristicType::Init : t == "true" ? HeuristicType::True : HeuristicType::False;
}
inline ExternalType extt(std::string const &v) {
    return v == "t" ? ExternalType::True : v == "f" ? ExternalType::False : v == "r" ? ExternalType::Release : ExternalType::Free;
}
inline json n(json v) { return v.is_null() ? json("null") : v; }
inline json res(SolveResult r) {
    json o = result(r);
    o["sat"] = n(o["sat"]);
    o["unsat"] = n(o["unsat"]);
    return o;
}
inline json strs(SymbolVector const &v) { json r = json::array(); for (auto &s : v) { r.push_back(s.to_string()); } return r; }

inline json backend(Backend &b, std::string const &m, json const &a) {
    if (m == "add_rule") { b.rule(none(a[0]) ? false : a[0].get<bool>(), vec<atom_t>(a[1]), none(a[2]) ? std::vector<literal_t>{} : vec<literal_t>(a[2])); return nullptr; }
    if (m == "add_weight_rule") { b.weight_rule(none(a[0]) ? false : a[0].get<bool>(), vec<atom_t>(a[1]), a[2], wl(a[3])); return nullptr; }
    if (m == "add_minimize") { b.minimize(a[0], wl(a[1])); return nullptr; }
    if (m == "add_external") { b.external(a[0], none(a[1]) ? ExternalType::False : extt(a[1])); return nullptr; }
    if (m == "add_atom") { return none(a[0]) ? b.add_atom() : b.add_atom(psym(a[0])); }
    if (m == "add_project") { b.project(vec<atom_t>(a[0])); return nullptr; }
    if (m == "add_assume") { b.assume(vec<literal_t>(a[0])); return nullptr; }
    if (m == "add_heuristic") { b.heuristic(a[0], heut(a[1]), a[2], a[3], vec<literal_t>(a[4])); return nullptr; }
    if (m == "add_acyc_edge") { b.acyc_edge(a[0], a[1], vec<literal_t>(a[2])); return nullptr; }
    if (m == "add_theory_term_number") { return b.add_theory_term_number(a[0]); }
    if (m == "add_theory_term_string") { return b.add_theory_term_string(str(a[0]).c_str()); }
    if (m == "add_theory_term_sequence") {
        return b.add_theory_term_sequence(a[0] == "tuple" ? TheorySequenceType::Tuple : a[0] == "set" ? TheorySequenceType::Set : TheorySequenceType::List, vec<id_t>(a[1]));
    }
    if (m == "add_theory_term_function") { return b.add_theory_term_function(str(a[0]).c_str(), vec<id_t>(a[1])); }
    if (m == "add_theory_term_symbol") { return b.add_theory_term_symbol(psym(a[0])); }
    if (m == "add_theory_element") { return b.add_theory_element(vec<id_t>(a[0]), vec<literal_t>(a[1])); }
    if (m == "add_theory_atom") { return none(a[2]) ? b.theory_atom(a[0].get<id_t>(), vec<id_t>(a[1])) : b.theory_atom(a[2].get<id_t>(), a[0].get<id_t>(), vec<id_t>(a[1])); }
    if (m == "add_theory_atom_with_guard") {
        auto s = str(a[2]);
        return none(a[4]) ? b.theory_atom(a[0].get<id_t>(), vec<id_t>(a[1]), s.c_str(), a[3].get<id_t>())
                          : b.theory_atom(a[4].get<id_t>(), a[0].get<id_t>(), vec<id_t>(a[1]), s.c_str(), a[3].get<id_t>());
    }
    throw std::invalid_argument("no operation " + m);
}

struct NoHandler : SolveEventHandler { };
inline GroundProgramObserver &obs() { static GroundProgramObserver o; return o; }

inline json control(Control &c, std::string const &m, json const &a) {
    auto tv = [](json const &v) { return truth(v.get<std::string>()); };
    auto mode = [&](SolveEventHandler *h, bool async, bool yield) {
        auto sh = none(a[0]) ? c.solve(SymbolicLiteralSpan{}, h, async, yield) : c.solve(LiteralSpan{vec<literal_t>(a[0])}, h, async, yield);
        if (yield) { for (auto &x : sh) { (void)x; } }
        else if (async) { sh.wait(); }
        return res(sh.get());
    };
    NoHandler h;
    if (m == "add") {
        auto ps = vec<std::string>(a[1]);
        std::vector<char const *> p;
        for (auto &x : ps) { p.push_back(x.c_str()); }
        c.add(str(a[0]).c_str(), p, str(a[2]).c_str());
        return nullptr;
    }
    if (m == "load") { c.load(str(a[0]).c_str()); return nullptr; }
    if (m == "ground") {
        std::vector<std::string> names;
        std::vector<SymbolVector> args;
        for (auto &p : a[0]) { names.push_back(p[0]); args.push_back(syms(p[1])); }
        std::vector<Part> parts;
        for (size_t i = 0; i < names.size(); ++i) { parts.emplace_back(names[i].c_str(), args[i]); }
        c.ground(parts);
        return nullptr;
    }
    if (m == "cleanup") { c.cleanup(); return nullptr; }
    if (m == "assign_external") { if (a[0].is_string()) { c.assign_external(psym(a[0]), tv(a[1])); } else { c.assign_external(a[0].get<literal_t>(), tv(a[1])); } return nullptr; }
    if (m == "release_external") { if (a[0].is_string()) { c.release_external(psym(a[0])); } else { c.release_external(a[0].get<literal_t>()); } return nullptr; }
    if (m == "is_conflicting") { return c.is_conflicting(); }
    if (m == "get_enumeration_assumption") { return static_cast<Control const &>(c).enable_enumeration_assumption(); }
    if (m == "get_cleanup") { return static_cast<Control const &>(c).enable_cleanup(); }
    if (m == "set_enumeration_assumption") { c.enable_enumeration_assumption(a[0].get<bool>()); return nullptr; }
    if (m == "set_cleanup") { c.enable_cleanup(a[0].get<bool>()); return nullptr; }
    if (m == "interrupt") { c.interrupt(); return nullptr; }
    if (m == "get_const") { return c.get_const(str(a[0]).c_str()).to_string(); }
    if (m == "register_observer") { if (none(a[0])) { c.register_observer(obs()); } else { c.register_observer(obs(), a[0].get<bool>()); } return nullptr; }
    if (m == "solve") { return mode(nullptr, false, false); }
    if (m == "solve_cb") { return mode(&h, false, false); }
    if (m == "solve_yield") {
        if (!none(a[0])) {
            auto sh = c.solve(LiteralSpan{vec<literal_t>(a[0])});
            for (auto &x : sh) { (void)x; }
            return res(sh.get());
        }
        return mode(nullptr, false, true);
    }
    if (m == "solve_async") { return mode(nullptr, true, false); }
    if (m == "solve_async_yield") { return mode(nullptr, true, true); }
    throw std::invalid_argument("no operation " + m);
}

inline json model(Model &x, std::string const &m, json const &a) {
    if (m == "number") { return x.number(); }
    if (m == "thread_id") { return x.thread_id(); }
    if (m == "optimality_proven") { return x.optimality_proven(); }
    if (m == "type") { return x.type() == ModelType::StableModel ? "stable" : x.type() == ModelType::BraveConsequences ? "brave" : "cautious"; }
    if (m == "contains") { return x.contains(psym(a[0])); }
    if (m == "is_true") { return x.is_true(a[0]); }
    if (m == "is_consequence") { auto v = x.is_consequence(a[0]); return v == ConsequenceType::True ? json(true) : v == ConsequenceType::False ? json(false) : json(nullptr); }
    if (m == "extend") { x.extend(syms(a[0])); return nullptr; }
    if (m == "cost") { return json(x.cost()); }
    if (m == "priority") { return json(x.priorities()); }
    if (m == "symbols") {
        clingo_show_type_bitset_t t = 0;
        if (a[0]) { t |= ShowType::Atoms; }
        if (a[1]) { t |= ShowType::Terms; }
        if (a[2]) { t |= ShowType::Shown; }
        if (a[3]) { t |= ShowType::Theory; }
        if (a[4]) { t |= ShowType::Complement; }
        return strs(x.symbols(ShowType{t}));
    }
    throw std::invalid_argument("no operation " + m);
}
inline json mctl(SolveControl x, std::string const &m, json const &a) {
    if (m == "add_clause") {
        auto ls = vec<literal_t>(a[0]);
        x.add_clause(LiteralSpan{ls});
        return nullptr;
    }
    throw std::invalid_argument("no operation " + m);
}
inline json handle(SolveHandle &h, std::string const &m, json const &a) {
    if (m == "get") { return res(h.get()); }
    if (m == "resume") { h.resume(); return nullptr; }
    if (m == "cancel") { h.cancel(); return nullptr; }
    if (m == "core") { json r = json::array(); for (auto l : h.core()) { r.push_back(l); } return r; }
    if (m == "wait") { if (none(a[0])) { h.wait(); return nullptr; } return h.wait(a[0].get<double>()); }
    if (m == "model") { auto &x = h.model(); return x ? json("a model") : json(nullptr); }
    if (m == "last") { auto *x = h.last(); return x ? json("a model") : json(nullptr); }
    if (m == "last_number") { auto *x = h.last(); return x ? json(x->number()) : json("no model"); }
    if (m == "model_number") { auto &x = h.model(); return x ? json(x.number()) : json("no model"); }
    throw std::invalid_argument("no operation " + m);
}
inline json init(PropagateInit &x, std::string const &m, json const &a) {
    static std::map<std::string, PropagatorCheckMode> const CM{{"none", PropagatorCheckMode::None}, {"total", PropagatorCheckMode::Total}, {"fixpoint", PropagatorCheckMode::Partial}, {"both", PropagatorCheckMode::Both}};
    if (m == "solver_literal") { return x.solver_literal(a[0]); }
    if (m == "add_watch") { if (none(a[1])) { x.add_watch(a[0]); } else { x.add_watch(a[0], a[1]); } return nullptr; }
    if (m == "remove_watch") { if (none(a[1])) { x.remove_watch(a[0]); } else { x.remove_watch(a[0], a[1]); } return nullptr; }
    if (m == "freeze_literal") { x.freeze_literal(a[0]); return nullptr; }
    if (m == "number_of_threads") { return x.number_of_threads(); }
    if (m == "set_check_mode") { x.set_check_mode(CM.at(a[0])); return nullptr; }
    if (m == "get_check_mode") { for (auto &p : CM) { if (p.second == x.get_check_mode()) { return p.first; } } return "?"; }
    if (m == "set_undo_mode") { x.set_undo_mode(a[0] == "always" ? PropagatorUndoMode::Always : PropagatorUndoMode::Default); return nullptr; }
    if (m == "get_undo_mode") { return x.get_undo_mode() == PropagatorUndoMode::Always ? "always" : "default"; }
    if (m == "add_literal") { return none(a[0]) ? x.add_literal() : x.add_literal(a[0].get<bool>()); }
    if (m == "add_clause") { auto ls = vec<literal_t>(a[0]); return x.add_clause(ls); }
    if (m == "add_weight_constraint") {
        auto t = none(a[3]) ? WeightConstraintType::Equivalence : a[3] == "left" ? WeightConstraintType::LeftImplication : a[3] == "right" ? WeightConstraintType::RightImplication : WeightConstraintType::Equivalence;
        auto ws = wl(a[1]);
        return none(a[4]) ? x.add_weight_constraint(a[0], ws, a[2], t) : x.add_weight_constraint(a[0], ws, a[2], t, a[4].get<bool>());
    }
    if (m == "add_minimize") { if (none(a[2])) { x.add_minimize(a[0], a[1]); } else { x.add_minimize(a[0], a[1], a[2]); } return nullptr; }
    if (m == "propagate") { return x.propagate(); }
    throw std::invalid_argument("no operation " + m);
}
inline json pctl(PropagateControl &x, std::string const &m, json const &a) {
    if (m == "thread_id") { return x.thread_id(); }
    if (m == "add_literal") { return x.add_literal(); }
    if (m == "add_watch") { x.add_watch(a[0]); return nullptr; }
    if (m == "has_watch") { return x.has_watch(a[0]); }
    if (m == "remove_watch") { x.remove_watch(a[0]); return nullptr; }
    if (m == "add_clause") {
        auto ls = vec<literal_t>(a[0]);
        if (none(a[1])) { return x.add_clause(ls); }
        bool tag = a[1], lock = a[2];
        return x.add_clause(ls, tag ? (lock ? ClauseType::VolatileStatic : ClauseType::Volatile) : (lock ? ClauseType::Static : ClauseType::Learnt));
    }
    if (m == "propagate") { return x.propagate(); }
    throw std::invalid_argument("no operation " + m);
}
inline json ass(Assignment x, std::string const &m, json const &a) {
    auto t = x.trail();
    if (m == "level") { return x.level(a[0]); }
    if (m == "decision") { return x.decision(a[0]); }
    if (m == "is_fixed") { return x.is_fixed(a[0]); }
    if (m == "is_true") { return x.is_true(a[0]); }
    if (m == "is_false") { return x.is_false(a[0]); }
    if (m == "value") { auto v = x.truth_value(a[0]); return v == TruthValue::True ? "t" : v == TruthValue::False ? "f" : "u"; }
    if (m == "has_literal") { return x.has_literal(a[0]); }
    if (m == "has_conflict") { return x.has_conflict(); }
    if (m == "decision_level") { return x.decision_level(); }
    if (m == "root_level") { return x.root_level(); }
    if (m == "is_total") { return x.is_total(); }
    if (m == "size") { return x.size(); }
    if (m == "trail_size") { return t.size(); }
    if (m == "trail_begin") { return t.begin_offset(a[0]); }
    if (m == "trail_end") { return t.end_offset(a[0]); }
    if (m == "at") { return x.at(a[0]); }
    if (m == "trail_at") { return t.at(a[0]); }
    if (m == "iter") { json r = json::array(); for (auto l : x) { r.push_back(l); } return r; }
    if (m == "trail_iter") { json r = json::array(); for (auto l : t) { r.push_back(l); } return r; }
    throw std::invalid_argument("no operation " + m);
}

template <class F> void items(json const &s, json &out, std::map<literal_t, std::string> const &names, F f) {
    for (auto &it : s) {
        json a = it["a"];
        if (a.is_null() || a.is_object()) { a = json::array(); }
        Shim::clear();
        for (auto &x : it["script"]) { Shim::script(x); }
        Shim::record(true);
        json r;
        try { r = f(it["m"].get<std::string>(), a); }
        catch (std::bad_alloc const &e) { r = {{"exc", "bad_alloc"}, {"msg", e.what()}}; }
        catch (std::invalid_argument const &e) { r = {{"exc", "invalid_argument"}, {"msg", e.what()}}; }
        catch (std::logic_error const &e) { r = {{"exc", "logic_error"}, {"msg", e.what()}}; }
        catch (std::runtime_error const &e) { r = {{"exc", "runtime_error"}, {"msg", e.what()}}; }
        catch (std::exception const &e) { r = {{"exc", "exception"}, {"msg", e.what()}}; }
        Shim::record(false);
        json calls = json::array();
        for (auto c : Shim::log()) {
            bool w = false;
            for (auto &x : it["watch"]) { w = w || x == c["f"]; }
            if (!w) { continue; }
            json ca = c["a"];
            for (auto &x : ca) { x = n(x); }
            if ((c["f"] == "control_assign_external" || c["f"] == "control_release_external") && a[0].is_string()) {
                auto jt = names.find(ca["literal"].get<int>());
                ca["literal"] = {{"atom", jt == names.end() ? "?" : jt->second}};
            }
            calls.push_back({{"f", c["f"]}, {"a", ca}});
        }
        Shim::clear();
        out.push_back({{"calls", calls}, {"res", n(r)}});
    }
}

} // namespace api

OP(scene) {
    Shim::reset();
    std::string sc = s["scene"];
    json out = json::array();
    Control ctl{{"1"}};
    ctl.add("base", {}, "{a(1..3)}. b. #external e.");
    ctl.ground({{"base", {}}});
    std::map<literal_t, std::string> names;
    for (auto x : ctl.symbolic_atoms()) { names[x.literal()] = x.symbol().to_string(); }
    bool done = false;
    auto once = [&](std::function<json(std::string const &, json const &)> f) {
        if (done) { return; }
        done = true;
        api::items(s["items"], out, names, f);
    };
    struct P : Propagator {
        std::string sc; std::function<void(std::function<json(std::string const &, json const &)>)> once;
        void init(PropagateInit &i) override { if (sc == "init") { once([&](std::string const &m, json const &a) { return api::init(i, m, a); }); } }
        void check(PropagateControl &c) override {
            if (sc == "pctl") { once([&](std::string const &m, json const &a) { return api::pctl(c, m, a); }); }
            if (sc == "ass") { once([&](std::string const &m, json const &a) { return api::ass(c.assignment(), m, a); }); }
        }
    } p;
    p.sc = sc;
    p.once = once;
    if (sc == "backend") { auto b = ctl.backend(); once([&](std::string const &m, json const &a) { return api::backend(b, m, a); }); }
    else if (sc == "control") { once([&](std::string const &m, json const &a) { return api::control(ctl, m, a); }); }
    else if (sc == "model" || sc == "mctl") {
        struct H : SolveEventHandler {
            std::function<void(Model &)> f;
            bool on_model(Model &m) override { f(m); return true; }
        } h;
        h.f = [&](Model &x) {
            once([&](std::string const &m, json const &a) { return sc == "model" ? api::model(x, m, a) : api::mctl(x.context(), m, a); });
        };
        ctl.solve(LiteralSpan{}, &h, false, false).get();
    } else if (sc == "handle") { auto h = ctl.solve(); once([&](std::string const &m, json const &a) { return api::handle(h, m, a); }); }
    else { ctl.register_propagator(p); ctl.solve(LiteralSpan{}, nullptr, false, false).get(); }
    return {{"items", out}};
}
