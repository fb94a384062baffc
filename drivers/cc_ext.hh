// Functions called from programs (C19)
#pragma once

namespace ex {
struct St : State {
    std::unique_ptr<Control> c;
};
static St &get(Driver &d) { return static_cast<St &>(*d.st["ext"]); }
static std::string arg(json const &x) {
    std::string k = x["k"];
    if (k == "c") { return x["s"]; }
    if (k == "X" || k == "t") { return k; }
    if (k == "p") { return "(" + x["e"][0].get<std::string>() + ";" + x["e"][1].get<std::string>() + ")"; }
    return "@" + x["f"].get<std::string>() + "(" + x["s"].get<std::string>() + ")";
}
static std::string rule(json const &r) {
    std::string call = "@" + r["f"].get<std::string>() + "(", body;
    bool first = true;
    for (auto &x : r["args"]) {
        if (!first) { call += ","; }
        first = false;
        call += arg(x);
        if (x["k"] == "X") { body = "d(X)"; }
    }
    call += ")";
    std::string h = r["h"];
    if (r["body"] == "head") { return h + "(" + call + ")" + (body.empty() ? "" : " :- " + body) + ".\n"; }
    return h + "(Y) :- " + (body.empty() ? "" : body + ", ") + "Y = " + call + ".\n";
}
static void answer(std::string const &kind, SymbolSpan a, SymbolSpanCallback ret) {
    SymbolVector r;
    if (kind == "first") { if (!a.empty()) { r.push_back(a.front()); } }
    else if (kind == "last") { if (!a.empty()) { r.push_back(a.back()); } }
    else if (kind == "all") { ret(a); return; }
    // in pieces
    else if (kind == "rev") { for (size_t i = a.size(); i-- > 0; ) { ret({a[i]}); } return; }
    else if (kind == "none") { if (a.size() % 2) { return; } }
    else if (kind == "tup") { r.push_back(Function("", a)); }
    else if (kind == "wrap") { r.push_back(Function("r", a)); }
    else if (kind == "cnt") { ret({Number(a.size())}); return; }
    else if (kind == "cst") { r.push_back(String("a b")); }
    else { if (!a.empty()) { r.push_back(a[0]); r.push_back(a[0]); } r.push_back(Number(7)); }
    ret(r);
}
} // namespace ex

OP(x_new) {
    d.st.erase("ext");
    auto x = std::make_shared<ex::St>();
    x->c.reset(new Control{StringSpan{}, [](WarningCode, char const *) {}});
    std::string t;
    for (auto &y : s["dom"]) { t += "d(" + y.get<std::string>() + ")."; }
    x->c->add("base", {}, t.c_str());
    x->c->ground({{"base", {}}});
    d.st["ext"] = x;
    return nullptr;
}
OP(x_add) {
    std::string t;
    for (auto &r : s["rules"]) { t += ex::rule(r); }
    std::vector<char const *> ps;
    if (s["par"]) { ps.push_back("t"); }
    ex::get(d).c->add(s["part"].get<std::string>().c_str(), ps, t.c_str());
    return json::array();
}
OP(x_ground) {
    std::vector<std::string> names;
    std::vector<SymbolVector> args;
    std::vector<Part> parts;
    for (auto &p : s["parts"]) {
        names.push_back(p["name"]);
        args.emplace_back();
        for (auto &a : p["args"]) { args.back().push_back(parse_term(a.get<std::string>().c_str())); }
    }
    for (size_t i = 0; i < names.size(); ++i) { parts.emplace_back(names[i].c_str(), args[i]); }
    std::set<std::string> calls;
    if (s["ctx"]["use"]) {
        ex::get(d).c->ground(parts, [&](Location loc, char const *name, SymbolSpan a, SymbolSpanCallback ret) {
            std::string t = std::string(name) + "(";
            bool first = true;
            for (auto &x : a) { t += (first ? "" : ",") + x.to_string(); first = false; }
            calls.insert(t + ")");
            if (std::string(loc.begin_file()) != "<block>") { throw std::runtime_error("location"); }
            ex::answer(s["ctx"]["map"].at(name), a, ret);
        });
    }
    else { ex::get(d).c->ground(parts); }
    return json(std::vector<std::string>(calls.begin(), calls.end()));
}
OP(x_solve) {
    json r = json::array();
    for (auto &m : ex::get(d).c->solve()) {
        for (auto &x : m.symbols(ShowType::Atoms)) { if (x.name()[0] == 'p') { r.push_back(x.to_string()); } }
    }
    return {{"bag", r}};
}
