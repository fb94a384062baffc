// Backends and observers (C10).
namespace {
std::string heu_name(HeuristicType t) {
    return t == HeuristicType::Level ? "level" : t == HeuristicType::Sign ? "sign" : t == HeuristicType::Factor ? "factor"
         : t == HeuristicType::Init ? "init" : t == HeuristicType::True ? "true" : "false";
}
std::string ext_name(ExternalType t) {
    return t == ExternalType::True ? "t" : t == ExternalType::False ? "f" : t == ExternalType::Release ? "r" : "u";
}
template <class S> json jspan(S s) { json r = json::array(); for (auto x : s) { r.push_back(x); } return r; }
template <> json jspan(WeightedLiteralSpan s) { json r = json::array(); for (auto x : s) { r.push_back({x.literal(), x.weight()}); } return r; }
struct Recorder : GroundProgramObserver {
    json log = json::array();
    std::set<std::string> has;
    int id;
    void put(char const *n, json a, char const *key = nullptr) {
        if (!has.count(key ? key : n)) { return; }
        json e = json::array({n});
        for (auto &x : a) { e.push_back(x); }
        log.push_back(e);
    }
    void init_program(bool i) override { put("init_program", json::array({i})); }
    void begin_step() override { put("begin_step", json::array()); }
    void end_step() override { put("end_step", json::array()); }
    void rule(bool c, AtomSpan h, LiteralSpan b) override { put("rule", json::array({c, jspan(h), jspan(b)})); }
    void weight_rule(bool c, AtomSpan h, weight_t l, WeightedLiteralSpan b) override { put("weight_rule", json::array({c, jspan(h), l, jspan(b)})); }
    void minimize(weight_t p, WeightedLiteralSpan b) override { put("minimize", json::array({p, jspan(b)})); }
    void project(AtomSpan a) override { put("project", json::array({jspan(a)})); }
    void output_atom(Symbol s, atom_t a) override { put("output_atom", json::array({s.to_string(), a})); }
    void output_term(Symbol s, LiteralSpan c) override { put("output_term", json::array({s.to_string(), jspan(c)})); }
    void external(atom_t a, ExternalType t) override { put("external", json::array({a, ext_name(t)})); }
    void assume(LiteralSpan l) override { put("assume", json::array({jspan(l)})); }
    void heuristic(atom_t a, HeuristicType t, int b, unsigned p, LiteralSpan c) override { put("heuristic", json::array({a, heu_name(t), b, p, jspan(c)})); }
    void acyc_edge(int u, int v, LiteralSpan c) override { put("acyc_edge", json::array({u, v, jspan(c)})); }
    void theory_term_number(id_t i, int n) override { put("theory_term_number", json::array({i, n}), "theory"); }
    void theory_term_string(id_t i, char const *n) override { put("theory_term_string", json::array({i, n}), "theory"); }
    void theory_term_compound(id_t i, int n, IdSpan a) override { put("theory_term_compound", json::array({i, n, jspan(a)}), "theory"); }
    void theory_element(id_t i, IdSpan t, LiteralSpan c) override { put("theory_element", json::array({i, jspan(t), jspan(c)}), "theory"); }
    void theory_atom(id_t a, id_t t, IdSpan e) override { put("theory_atom", json::array({a, t, jspan(e)}), "theory"); }
    void theory_atom_with_guard(id_t a, id_t t, IdSpan e, id_t o, id_t r) override { put("theory_atom_with_guard", json::array({a, t, jspan(e), o, r}), "theory"); }
};
struct ObsState : State {
    std::vector<std::unique_ptr<Recorder>> recs;
};
ObsState &obs_state(Driver &d) {
    auto &p = d.st["backend"];
    if (!p) { p = std::make_shared<ObsState>(); }
    return static_cast<ObsState &>(*p);
}
id_t mk_term(Backend &b, json const &t) {
    std::string k = t["t"];
    if (k == "num") { return b.add_theory_term_number(t["v"].get<int>()); }
    std::string v = t["v"];
    if (k == "str") { return b.add_theory_term_string(v.c_str()); }
    if (k == "sym") { return b.add_theory_term_symbol(psym(v)); }
    std::vector<id_t> a;
    for (auto &x : t["args"]) { a.push_back(mk_term(b, x)); }
    if (k == "fun") { return b.add_theory_term_function(v.c_str(), a); }
    return b.add_theory_term_sequence(v == "set" ? TheorySequenceType::Set : v == "list" ? TheorySequenceType::List : TheorySequenceType::Tuple, a);
}
}
OP(observe) {
    auto &st = obs_state(d);
    st.recs.emplace_back(new Recorder());
    auto &r = *st.recs.back();
    r.id = s["id"];
    for (auto &x : s["has"]) { r.has.insert(x.get<std::string>()); }
    if (s["replace"].get<bool>()) { d.ctl->register_observer(r, true); } else { d.ctl->register_observer(r); }
    return nullptr;
}
OP(state) {
    d.ctl->with_backend([&](Backend &b) {
        auto at = [&](std::string a) -> atom_t {
            auto it = d.aux.find(a);
            if (it != d.aux.end()) { return it->second; }
            auto l = a[0] == '_' ? b.add_atom() : b.add_atom(psym(a));
            d.aux[a] = l;
            return l;
        };
        auto lit = [&](std::string l) -> literal_t { return l[0] == '~' ? -static_cast<literal_t>(at(l.substr(1))) : static_cast<literal_t>(at(l)); };
        auto lits = [&](json const &x) { std::vector<literal_t> r; for (auto &l : x) { r.push_back(lit(l)); } return r; };
        auto ats = [&](json const &x) { std::vector<atom_t> r; for (auto &l : x) { r.push_back(at(l)); } return r; };
        auto wlits = [&](json const &x) { std::vector<WeightedLiteral> r; for (auto &l : x) { r.emplace_back(lit(l[0]), l[1].get<int>()); } return r; };
        for (auto &x : s["stmts"]) {
            std::string k = x["k"];
            if (k == "rule") { auto h = ats(x["head"]); b.rule(x["ch"].get<bool>(), h, lits(x["body"])); }
            else if (k == "weight_rule") { auto h = ats(x["head"]); b.weight_rule(x["ch"].get<bool>(), h, x["lo"].get<int>(), wlits(x["body"])); }
            else if (k == "minimize") { b.minimize(x["p"].get<int>(), wlits(x["body"])); }
            else if (k == "project") { b.project(ats(x["atoms"])); }
            else if (k == "external") { b.external(at(x["a"]), extt(x["v"])); }
            else if (k == "assume") { b.assume(lits(x["body"])); }
            else if (k == "heuristic") { auto a = at(x["a"]); b.heuristic(a, heu(x["t"]), x["bias"].get<int>(), x["prio"].get<unsigned>(), lits(x["body"])); }
            else if (k == "edge") { b.acyc_edge(x["u"].get<int>(), x["v"].get<int>(), lits(x["body"])); }
            else if (k == "atom") {
                auto l = at(x["a"]);
                std::string a = x["a"];
                if (a[0] != '_' && b.add_atom(psym(a)) != l) { throw std::runtime_error("atom"); }
            }
            else {
                auto name = mk_term(b, x["name"]);
                std::vector<id_t> els;
                for (auto &e : x["el"]) {
                    std::vector<id_t> ts;
                    for (auto &t : e["terms"]) { ts.push_back(mk_term(b, t)); }
                    els.push_back(b.add_theory_element(ts, lits(e["cond"])));
                }
                std::string as = x["at"], op = x["op"];
                atom_t a = as.empty() ? 0 : at(as);
                if (op.empty()) { b.theory_atom(a, name, els); }
                else { b.theory_atom(a, name, els, op.c_str(), mk_term(b, x["rhs"])); }
            }
        }
    });
    return nullptr;
}
OP(text) {
    std::string p = "t" + std::to_string(s["n"].get<int>());
    if (s["n"].get<int>() == 1) {
        d.ctl->add("base", {}, "#theory t { x {}; &ta/1 : x, {<=}, x, head }.");
        d.ctl->ground({{"base", {}}});
    }
    d.ctl->add(p.c_str(), {}, s["text"].get<std::string>().c_str());
    d.ctl->ground({{p.c_str(), {}}});
    return nullptr;
}
OP(stepend) {
    json names = json::array(), logs = json::array();
    for (auto &x : d.aux) { names.push_back({x.second, x.first}); }
    for (auto x : d.ctl->symbolic_atoms()) { names.push_back({x.literal(), x.symbol().to_string()}); }
    auto h = d.ctl->solve();
    auto r = h.get();
    for (auto &x : obs_state(d).recs) { logs.push_back({{"id", x->id}, {"log", x->log}}); x->log = json::array(); }
    return {{"names", names}, {"logs", logs}, {"cut", r.is_unknown()}};
}
