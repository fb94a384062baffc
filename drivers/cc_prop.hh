// Propagators: stated constraints (C08)
#pragma once

namespace pr {
struct Passive : Propagator {
    void init(PropagateInit &init) override {
        for (auto x : init.symbolic_atoms()) { init.add_watch(init.solver_literal(x.literal())); }
    }
};
struct Prop : Heuristic {
    json conf, todo;
    std::map<std::string, literal_t> fresh, map;
    std::atomic<int> k{0};
    bool conflict = false;
    literal_t lit(json const &l) {
        auto it = fresh.find(l[0].get<std::string>());
        literal_t x = it != fresh.end() ? it->second : map.at(l[0].get<std::string>());
        return l[1] == 1 ? x : -x;
    }
    std::vector<literal_t> lits(json const &ls) {
        std::vector<literal_t> r;
        for (auto &l : ls) { r.push_back(lit(l)); }
        return r;
    }
    bool act(PropagateInit &init, json const &a) {
        std::string k = a["k"];
        if (k == "clause") { return init.add_clause(lits(a["lits"])); }
        if (k == "wc") {
            std::vector<WeightedLiteral> wl;
            for (auto &x : a["wl"]) { wl.emplace_back(lit(x), x[2].get<int>()); }
            int t = a["type"];
            auto type = t == 0 ? WeightConstraintType::Equivalence : t < 0 ? WeightConstraintType::LeftImplication : WeightConstraintType::RightImplication;
            if (!a["eq"].get<bool>()) { return init.add_weight_constraint(lit(a["lit"]), wl, a["bound"], type); }
            return init.add_weight_constraint(lit(a["lit"]), wl, a["bound"], type, true);
        }
        if (k == "prop") { return init.propagate(); }
        if (k == "freeze") { init.freeze_literal(lit(a["lit"])); return true; }
        if (k == "min") {
            if (a["p"] == 0) { init.add_minimize(lit(a["lit"]), a["w"]); } else { init.add_minimize(lit(a["lit"]), a["w"], a["p"]); }
            return true;
        }
        literal_t x = a["freeze"].get<bool>() ? init.add_literal() : init.add_literal(false);
        fresh[a["name"]] = x;
        std::vector<literal_t> c{x};
        for (auto y : lits(a["lits"])) {
            if (!init.add_clause({-x, y})) { return false; }
            c.push_back(-y);
        }
        return init.add_clause(c);
    }
    void init(PropagateInit &init) override {
        map.clear();
        for (auto &n : todo["atoms"]) {
            auto at = init.symbolic_atoms();
            auto it = at.find(Id(n.get<std::string>().c_str()));
            map[n] = it == at.end() ? -1 : init.solver_literal((*it).literal());
        }
        std::string m = conf["mode"];
        auto mode = m == "total" ? PropagatorCheckMode::Total : m == "fixpoint" ? PropagatorCheckMode::Partial : PropagatorCheckMode::Both;
        init.set_check_mode(mode);
        if (init.get_check_mode() != mode) { throw std::runtime_error("check mode"); }
        conflict = false;
        for (auto &a : todo["acts"]) {
            if (!act(init, a)) { conflict = true; return; }
        }
        int i = 0;
        for (auto &l : todo["lazy"]) {
            if (l["when"] == "prop") {
                for (auto x : lits(l["lits"])) {
                    if (l["k"] == "clause") { x = -x; }
                    if (i % 2 == 0) { init.add_watch(x); }
                    else { for (int t = 0; t < init.number_of_threads(); ++t) { init.add_watch(x, t); } }
                }
            }
            ++i;
        }
    }
    void enforce(PropagateControl &ctl, bool check) {
        auto a = ctl.assignment();
        int i = 0;
        for (auto &l : todo["lazy"]) {
            ++i;
            auto ls = lits(l["lits"]);
            if ((l["when"] == "check") != check && !(check && std::all_of(ls.begin(), ls.end(), [&](literal_t x) { return a.is_fixed(x); }))) { continue; }
            bool ng = l["k"] == "nogood";
            if (!std::all_of(ls.begin(), ls.end(), [&](literal_t x) { return ng ? a.is_true(x) : a.is_false(x); })) { continue; }
            if (ng) { for (auto &x : ls) { x = -x; } }
            bool tag = l["tag"], lock = l["lock"];
            bool r = tag ? ctl.add_clause(ls, lock ? ClauseType::VolatileStatic : ClauseType::Volatile) : lock ? ctl.add_clause(ls, ClauseType::Static) : ctl.add_clause(ls);
            if (!r || (i % 2 == 1 && !ctl.propagate())) { return; }
        }
    }
    void propagate(PropagateControl &ctl, LiteralSpan) override { enforce(ctl, false); }
    void check(PropagateControl &ctl) override { enforce(ctl, true); }
    literal_t decide(id_t, Assignment const &a, literal_t fallback) override {
        int n = ++k;
        if (conf["decide"].get<bool>()) {
            std::vector<literal_t> t;
            for (auto &x : map) { t.push_back(x.second); }
            std::sort(t.begin(), t.end());
            int i = 0;
            for (auto x : t) {
                if (a.truth_value(x) == TruthValue::Free && (i + n) % 3 == 0) { return n % 2 ? x : -x; }
                ++i;
            }
        }
        return n % 2 == 0 ? fallback : 0;
    }
};
struct St : State {
    Passive other;
    Prop prop;
    std::unique_ptr<Control> c;
    bool optn;
};
} // namespace pr

OP(p_new) {
    d.st.erase("prop");
    auto x = std::make_shared<pr::St>();
    x->optn = s["opt"] == "optN";
    std::string t = "-t" + std::to_string(s["threads"].get<int>());
    std::vector<char const *> args{"0"};
    if (x->optn) { args.push_back("--opt-mode=optN"); }
    if (s["threads"] > 1) { args.push_back(t.c_str()); }
    x->prop.conf = s;
    x->c.reset(new Control{args});
    if (s["other"].get<bool>()) { x->c->register_propagator(x->other); }
    x->c->register_propagator(x->prop);
    d.st["prop"] = x;
    return nullptr;
}
OP(p_solve) {
    auto &x = static_cast<pr::St &>(*d.st["prop"]);
    std::string text = s["text"];
    if (!text.empty()) {
        std::string part = "s" + std::to_string(s["n"].get<int>());
        x.c->add(part.c_str(), {}, text.c_str());
        x.c->ground({{part.c_str(), {}}});
    }
    x.prop.todo = s;
    json models = json::array(), cost = json::array();
    bool sat;
    {
        auto h = x.c->solve();
        for (auto &m : h) {
            if (x.optn && !m.optimality_proven()) { continue; }
            std::vector<std::string> t;
            for (auto &y : m.symbols(ShowType::Atoms)) { t.push_back(y.to_string()); }
            std::sort(t.begin(), t.end());
            models.push_back(t);
            cost = json::array();
            if (x.optn) { for (auto c : m.cost()) { if (c) { cost.push_back(c); } } }
        }
        sat = h.get().is_satisfiable();
    }
    return {{"models", models}, {"cost", cost}, {"sat", sat}, {"ok", !(x.prop.conflict && sat)}};
}
