// Symbols (C09).
namespace {
std::string fix(std::string s) {
    std::string r;
    for (char c : s) { if (c == '~') { r += "\xc3\xa4\xe2\x82\xac"; } else { r += c; } }
    return r;
}
std::string unfix(std::string s) {
    std::string u = "\xc3\xa4\xe2\x82\xac";
    for (size_t p; (p = s.find(u)) != std::string::npos; ) { s.replace(p, u.size(), "~"); }
    return s;
}
Symbol mksym(json const &r, bool alt) {
    std::string t = r["t"];
    if (t == "inf") { return Infimum(); }
    if (t == "sup") { return Supremum(); }
    if (t == "num") { return Number(r["v"].get<int>()); }
    if (t == "str") { return String(fix(r["v"]).c_str()); }
    SymbolVector a;
    for (auto &x : r["a"]) { a.push_back(mksym(x, alt)); }
    std::string n = r["n"];
    if (alt && a.empty() && !n.empty()) { return Id(n.c_str(), r["p"].get<bool>()); }
    return Function(n.c_str(), a, r["p"].get<bool>());
}
json accsym(Symbol s, json &bad) {
    switch (s.type()) {
        case SymbolType::Infimum: return {{"t", "inf"}};
        case SymbolType::Supremum: return {{"t", "sup"}};
        case SymbolType::Number: return {{"t", "num"}, {"v", s.number()}};
        case SymbolType::String: return {{"t", "str"}, {"v", unfix(s.string())}};
        default: break;
    }
    std::string n = s.name();
    unsigned k = s.arguments().size();
    if (s.is_positive() == s.is_negative()) { bad.push_back("sign"); }
    if (!s.match(n.c_str(), k) || s.match(n.c_str(), k + 1) || s.match((n + "y").c_str(), k)) { bad.push_back("match"); }
    json a = json::array();
    for (auto x : s.arguments()) { a.push_back(accsym(x, bad)); }
    return {{"t", "fun"}, {"n", n}, {"a", a}, {"p", s.is_positive()}};
}
template <class F> bool throws(F f) {
    try { f(); return false; }
    catch (std::runtime_error const &) { return true; }
}
}
OP(syms) {
    std::vector<Symbol> a, b;
    json bad = json::array(), text = json::array(), acc = json::array();
    for (auto &r : s["syms"]) { a.push_back(mksym(r, false)); b.push_back(mksym(r, true)); }
    for (size_t i = 0; i < a.size(); ++i) {
        auto x = a[i];
        for (size_t j = 0; j < b.size(); ++j) {
            auto y = b[j];
            if ((x < y) != (i < j) || (x <= y) != (i <= j) || (x == y) != (i == j) || (x != y) != (i != j) || (x > y) != (i > j) || (x >= y) != (i >= j)) {
                bad.push_back({"cmp", x.to_string(), y.to_string()});
            }
        }
        if (x.hash() != b[i].hash() || std::hash<Symbol>()(x) != std::hash<Symbol>()(b[i])) { bad.push_back({"hash", x.to_string()}); }
        if (parse_term(x.to_string().c_str()) != x) { bad.push_back({"parse", x.to_string()}); }
        std::ostringstream o;
        o << x;
        if (o.str() != x.to_string()) { bad.push_back({"stream", x.to_string()}); }
        auto k = x.type();
        if (throws([&] { x.number(); }) != (k != SymbolType::Number) || throws([&] { x.string(); }) != (k != SymbolType::String) ||
            throws([&] { x.name(); }) != (k != SymbolType::Function) || throws([&] { x.arguments(); }) != (k != SymbolType::Function) ||
            throws([&] { x.is_positive(); }) != (k != SymbolType::Function) || throws([&] { x.is_negative(); }) != (k != SymbolType::Function)) {
            bad.push_back({"accessor", x.to_string()});
        }
        text.push_back(unfix(x.to_string()));
        acc.push_back(accsym(x, bad));
    }
    while (bad.size() > 5) { bad.erase(bad.size() - 1); }
    return {{"bad", bad}, {"text", text}, {"acc", acc}};
}
OP(sigs) {
    std::vector<Signature> a;
    json bad = json::array(), acc = json::array();
    for (auto &r : s["sigs"]) { a.emplace_back(r["n"].get<std::string>().c_str(), r["k"].get<unsigned>(), r["p"].get<bool>()); }
    for (size_t i = 0; i < a.size(); ++i) {
        auto x = a[i];
        for (size_t j = 0; j < a.size(); ++j) {
            auto y = a[j];
            if ((x < y) != (i < j) || (x <= y) != (i <= j) || (x == y) != (i == j) || (x != y) != (i != j) || (x > y) != (i > j) || (x >= y) != (i >= j)) {
                bad.push_back({"cmp", i, j});
            }
        }
        Signature z{x.name(), x.arity(), x.positive()};
        if (z != x || z.hash() != x.hash() || x.positive() == x.negative()) { bad.push_back({"eq", i}); }
        std::ostringstream o;
        o << x;
        acc.push_back({{"n", x.name()}, {"k", x.arity()}, {"p", x.positive()}, {"text", o.str()}});
    }
    return {{"bad", bad}, {"acc", acc}};
}
