// Symbolic-atom views (C11).
namespace {
json arow(SymbolicAtom const &a) { return {{"a", a.symbol().to_string()}, {"fact", a.is_fact()}, {"ext", a.is_external()}}; }
}
OP(satoms) {
    auto sa = d.ctl->symbolic_atoms();
    json r, all = json::array(), sigs = json::array(), by = json::array(), find = json::array();
    std::set<literal_t> lits;
    bool ok = true;
    for (auto a : sa) {
        all.push_back(arow(a));
        if (!a.is_fact()) { ok = lits.insert(a.literal()).second && a.literal() != 0 && ok; }
        ok = ok && sa[a.symbol()].literal() == a.literal() && sa.find(a.symbol()) != sa.end();
    }
    std::set<std::string> have, seen;
    for (auto a : sa) { auto y = a.symbol(); have.insert(std::string(y.name()) + "/" + std::to_string(y.arguments().size()) + (y.is_positive() ? "+" : "-")); }
    for (auto x : sa.signatures()) {
        auto k = std::string(x.name()) + "/" + std::to_string(x.arity()) + (x.positive() ? "+" : "-");
        if (!seen.insert(k).second) { throw std::runtime_error("duplicate signature"); }
        if (x.positive() == x.negative()) { throw std::runtime_error("sign"); }
        if (!have.count(k)) { continue; }
        sigs.push_back({x.name(), x.arity(), x.positive()}); }
    for (auto &x : s["by"]) {
        std::string n = x[0];
        int ar = x[1];
        json rows = json::array();
        for (auto it = sa.begin(Signature{n.c_str(), static_cast<uint32_t>(ar), x[2].get<bool>()}); it; it++) {
            rows.push_back(arow(*it));
            if (!it->match(n.c_str(), ar) || it->match(n.c_str(), ar + 1) || it->match((n + "z").c_str(), ar)) { throw std::runtime_error("match"); }
        }
        by.push_back({{"s", x}, {"rows", {{"bag", rows}}}});
    }
    for (auto &x : s["find"]) {
        auto it = sa.find(psym(x));
        json o{{"a", x}, {"in", static_cast<bool>(it)}};
        if (it != sa.end()) { o["row"] = arow(*it); }
        find.push_back(o);
    }
    return {{"all", {{"bag", all}}}, {"len", sa.length()}, {"sigs", {{"bag", sigs}}}, {"by", by}, {"find", find}, {"litsok", ok}};
}
OP(agree) {
    json bad = json::array();
    auto see = [&](Model const &m) {
        auto v = m.symbols(ShowType::Atoms);
        std::set<Symbol> atoms{v.begin(), v.end()};
        size_t n = 0;
        for (auto a : m.context().symbolic_atoms()) {
            bool in = atoms.count(a.symbol()) > 0;
            n += in;
            if (in != m.is_true(a.literal()) || m.contains(a.symbol()) != in || (a.is_fact() && !in)) { bad.push_back(a.symbol().to_string()); }
        }
        if (n != atoms.size()) { bad.push_back("missing"); }
    };
    auto r = run_solve(d, "cb", see, true);
    return {{"sat", r.is_satisfiable()}, {"bad", bad}};
}
OP(autoclean) {
    bool w = d.ctl->enable_cleanup();
    d.ctl->enable_cleanup(s["v"].get<bool>());
    return {{"was", w}, {"now", d.ctl->enable_cleanup()}};
}
