// Theory data (C12).
namespace {
json thterm(TheoryTerm t) {
    json r;
    r["str"] = t.to_string();
    auto args = [&]() {
        json a = json::array();
        for (auto x : t.arguments()) { a.push_back(thterm(x)); }
        return a;
    };
    switch (t.type()) {
        case TheoryTermType::Number: { r["type"] = "Number"; r["number"] = t.number(); break; }
        case TheoryTermType::Symbol: { r["type"] = "Symbol"; r["name"] = t.name(); break; }
        case TheoryTermType::Function: { r["type"] = "Function"; r["name"] = t.name(); r["args"] = args(); break; }
        case TheoryTermType::Tuple: { r["type"] = "Tuple"; r["args"] = args(); break; }
        case TheoryTermType::List: { r["type"] = "List"; r["args"] = args(); break; }
        case TheoryTermType::Set: { r["type"] = "Set"; r["args"] = args(); break; }
    }
    std::ostringstream o; o << t;
    if (o.str() != t.to_string()) { throw std::runtime_error("printing"); }
    return r;
}
using Names = std::map<literal_t, std::string>;
std::string thname(Names const &n, literal_t l) {
    auto it = n.find(std::abs(l));
    return it == n.end() ? "?" + std::to_string(l) : it->second;
}
json thatom(TheoryAtom a, Names const &names) {
    json els = json::array();
    std::string full;
    for (auto e : a.elements()) {
        std::string ts, cs, s = e.to_string();
        json terms = json::array(), cond = json::array();
        for (auto t : e.tuple()) { ts += (ts.empty() ? "" : ",") + t.to_string(); terms.push_back(thterm(t)); }
        size_t n = 0;
        for (auto l : e.condition()) {
            ++n;
            cs += (cs.empty() ? "" : ",") + std::string(l < 0 ? "not " : "") + thname(names, l);
            cond.push_back((l < 0 ? "~" : "") + thname(names, l));
        }
        full += (full.empty() ? "" : ";") + s;
        for (size_t i; (i = s.find("#aux(")) != std::string::npos;) {
            auto j = s.find(')', i);
            s.replace(i, j - i + 1, thname(names, std::stoi(s.substr(i + 5, j - i - 5))));
        }
        std::string pre = ts + (n || terms.empty() ? ": " : ""), r = s.substr(std::min(pre.size(), s.size()));
        std::string r1 = r, r2 = cs;
        std::sort(r1.begin(), r1.end()); std::sort(r2.begin(), r2.end());
        bool ok = s.compare(0, pre.size(), pre) == 0 && r1 == r2;
        if (n == 0 && e.condition_id() != 0) { throw std::runtime_error("condition id"); }
        if (n == 1 && e.condition_id() != *e.condition().begin()) { throw std::runtime_error("condition id"); }
        els.push_back({{"terms", terms}, {"cond", {{"bag", cond}}}, {"strok", ok}});
    }
    json g = json::array();
    std::string s = "&" + a.term().to_string() + "{" + full + "}";
    if (a.has_guard()) { auto x = a.guard(); g = {x.first, thterm(x.second)}; s += x.first + x.second.to_string(); }
    std::ostringstream o; o << a;
    return {{"term", thterm(a.term())}, {"el", {{"bag", els}}}, {"guard", g}, {"dir", a.literal() == 0}, {"strok", s == a.to_string() && o.str() == s}};
}
struct ThProp : Propagator {
    std::vector<std::string> atoms, bad;
    std::map<std::string, bool> has;
    std::vector<std::pair<literal_t, std::vector<literal_t>>> conds;
    void init(PropagateInit &init) override {
        atoms.clear(); conds.clear();
        for (auto a : init.theory_atoms()) {
            atoms.push_back(a.to_string());
            for (auto e : a.elements()) {
                std::vector<literal_t> ls;
                for (auto l : e.condition()) { ls.push_back(init.solver_literal(l)); }
                conds.emplace_back(e.condition_id() ? init.solver_literal(e.condition_id()) : 1, ls);
            }
        }
        init.set_check_mode(PropagatorCheckMode::Total);
    }
    void check(PropagateControl &ctl) override {
        auto as = ctl.assignment();
        for (auto &c : conds) {
            bool all = true;
            for (auto l : c.second) { all = all && as.is_true(l); }
            if (as.is_true(c.first) != all) { bad.push_back("condition"); }
        }
    }
};
struct ThState : State {
    ThProp prop;
    std::vector<literal_t> fix;
};
Clingo::id_t thput(Backend &t, json const &x) {
    std::string k = x["t"];
    if (k == "num") { return t.add_theory_term_number(x["n"].get<int>()); }
    if (k == "sym") { return t.add_theory_term_string(x["s"].get<std::string>().c_str()); }
    if (k == "str") { return t.add_theory_term_string(("\"" + x["s"].get<std::string>() + "\"").c_str()); }
    std::vector<Clingo::id_t> a;
    for (auto &y : x["args"]) { a.push_back(thput(t, y)); }
    return t.add_theory_term_function(x["s"].get<std::string>().c_str(), IdSpan{a});
}
} // namespace
OP(theory) {
    auto &sp = d.st["theory"];
    bool first = !s["grammar"].get<std::string>().empty();
    if (first) { sp = std::make_shared<ThState>(); }
    auto &st = static_cast<ThState &>(*sp);
    if (first) {
        d.ctl->add("base", {}, s["grammar"].get<std::string>().c_str());
        d.ctl->ground({{"base", {}}});
        d.ctl->register_propagator(st.prop);
    }
    std::string k = s["k"], part = "s" + k;
    d.ctl->add(part.c_str(), {}, s["text"].get<std::string>().c_str());
    d.ctl->ground({{part.c_str(), {}}});
    auto sa = d.ctl->symbolic_atoms();
    auto lit = [&](std::string const &a) { return sa[psym(a)].literal(); };
    if (!s["bk"].empty()) {
        d.ctl->with_backend([&](Backend &b) {
            auto &t = b;
            for (auto &x : s["bk"]) {
                atom_t a = x["kind"] == "bk" ? b.add_atom() : 0;
                std::vector<Clingo::id_t> args, els;
                for (auto &y : x["args"]) { args.push_back(thput(t, y)); }
                auto name = t.add_theory_term_function("k", IdSpan{args});
                for (auto &e : x["el"]) {
                    std::vector<Clingo::id_t> tup;
                    for (auto &y : e["tup"]) { tup.push_back(thput(t, y)); }
                    std::vector<literal_t> cond;
                    for (auto &l : e["cond"]) { cond.push_back(l["s"].get<bool>() ? lit(l["a"]) : -lit(l["a"])); }
                    els.push_back(t.add_theory_element(IdSpan{tup}, LiteralSpan{cond}));
                }
                std::string op = x["op"];
                if (op.empty()) { t.theory_atom(a, name, IdSpan{els}); }
                else { t.theory_atom(a, name, IdSpan{els}, op.c_str(), thput(t, x["rhs"])); }
                if (a) {
                    std::vector<literal_t> body;
                    for (auto &l : x["body"]) { body.push_back(l["s"].get<bool>() ? lit(l["a"]) : -lit(l["a"])); }
                    b.rule(false, AtomSpan{&a, 1}, LiteralSpan{body});
                }
            }
        });
    }
    Names names;
    for (auto a : sa) { names.emplace(a.literal(), a.symbol().to_string()); }
    std::vector<TheoryAtom> ats;
    json read = json::array(), again = json::array(), models = json::array();
    for (auto a : d.ctl->theory_atoms()) { ats.push_back(a); read.push_back(thatom(a, names)); }
    std::vector<std::string> strs;
    std::vector<literal_t> lits;
    std::vector<int> idx;
    for (auto a : ats) {
        again.push_back(thatom(a, names));
        strs.push_back(a.to_string()); lits.push_back(a.literal()); idx.push_back((*a.term().arguments().begin()).number());
    }
    bool ok = again == read && d.ctl->theory_atoms().size() == ats.size();
    st.prop.bad.clear();
    std::vector<std::string> pre{"p(" + k + ",", "q(" + k + ")", "i(" + k + ","};
    auto starts = [&](std::string const &x, size_t n) { for (size_t i = 0; i < n; ++i) { if (x.compare(0, pre[i].size(), pre[i]) == 0) { return true; } } return false; };
    {
        auto h = d.ctl->solve(LiteralSpan{st.fix}, nullptr, false, true);
        for (auto &m : h) {
            json at = json::array(), ho = json::array();
            for (auto x : m.symbols(ShowType::Atoms)) { if (starts(x.to_string(), 3)) { at.push_back(x.to_string()); } }
            for (size_t i = 0; i < lits.size(); ++i) { if (lits[i] && m.is_true(lits[i])) { ho.push_back(idx[i]); } }
            models.push_back({{"atoms", {{"bag", at}}}, {"holds", {{"bag", ho}}}});
        }
        h.get();
    }
    auto x = st.prop.atoms, y = strs;
    std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    json bad = st.prop.bad;
    if (x != y) { bad.push_back("propagator reads different atoms"); }
    for (auto a : sa) { if (starts(a.symbol().to_string(), 2)) { st.fix.push_back(-a.literal()); } }
    for (size_t i = 0; i < lits.size(); ++i) { if (lits[i] && (strs[i][1] == 'a' || strs[i][1] == 'b')) { st.fix.push_back(-lits[i]); } }
    return {{"read", {{"bag", read}}}, {"same", ok}, {"models", {{"bag", models}}}, {"bad", bad}};
}
