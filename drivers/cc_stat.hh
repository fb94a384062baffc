// User statistics (C17)
#pragma once

namespace sta {
struct St : State {
    std::unique_ptr<Control> c;
    int opt = 0;
};
static St &get(Driver &d) { return static_cast<St &>(*d.st["stat"]); }

static StatisticsType kind(json const &w) {
    return w["t"] == "a" ? StatisticsType::Array : w["t"] == "m" ? StatisticsType::Map : StatisticsType::Value;
}
template <class S> json tree(S x, bool iter) {
    if (x.type() == StatisticsType::Value) {
        double y = x;
        if (y != x.value()) { throw std::logic_error("value"); }
        return {{"t", "v"}, {"v", y * 4}};
    }
    json e = json::array();
    if (x.type() == StatisticsType::Array) {
        if (iter) { for (auto y : x) { e.push_back(tree(y, iter)); } }
        else { for (size_t i = 0; i < x.size(); ++i) { e.push_back(tree(i % 2 == 0 ? x[i] : x.at(i), iter)); } }
        if (e.size() != x.size()) { throw std::logic_error("size"); }
        return {{"t", "a"}, {"e", e}};
    }
    auto ks = x.keys();
    size_t n = 0;
    for (char const *k : ks) {
        if (!x.has_subkey(k)) { throw std::logic_error("has"); }
        e.push_back({{"n", k}, {"x", tree(iter ? x[k] : x.at(k), iter)}});
        ++n;
    }
    if (ks.size() != n) { throw std::logic_error("size"); }
    return {{"t", "m"}, {"e", e}};
}
static void set(UserStatistics x, json const &w, bool update) {
    if (x.type() != kind(w)) { throw std::runtime_error("kind"); }
    if (w["t"] == "v") { x.set_value(w["v"].get<double>() / 4); }
    else if (w["t"] == "f") { x.set_value(update ? x.value() + w["add"].get<double>() / 4 : w["init"].get<double>() / 4); }
    else if (w["t"] == "a") {
        size_t n = x.size();
        for (size_t i = 0; i < w["e"].size(); ++i) {
            auto &y = w["e"][i];
            if (i < n) { set(x[i], y, update); }
            else if (i % 2 == 0) { set(x.push(kind(y)), y, false); }
            else { x.ensure_size(i + 1, kind(y)); set(x[i], y, false); }
        }
        x.ensure_size(w["e"].size(), StatisticsType::Map); // nothing to do
    }
    else {
        for (auto &p : w["e"]) {
            std::string k = p["n"];
            bool has = x.has_subkey(k.c_str());
            auto y = x.add_subkey(k.c_str(), kind(p["x"]));
            set(y, p["x"], has);
        }
    }
}
static UserStatistics nav(UserStatistics x, json const &path) {
    for (auto &pj : path) {
        std::string p = pj;
        if (x.type() == StatisticsType::Array) { x = x[std::stoul(p)]; } else { x = x[p.c_str()]; }
    }
    return x;
}
static json pair(json const &k, json const &v) {
    json e = json::array(), p = json::object(), m = json::object();
    p["n"] = k; p["x"] = v;
    e.push_back(p);
    m["t"] = "m"; m["e"] = e;
    return m;
}
static json one(UserStatistics *roots, json const &s) {
    auto x = nav(roots[s["root"].get<int>() - 1], s["path"]);
    std::string op = s["do"];
    if (op == "set") {
        std::string k = s["key"];
        if (s["arr"]) { set(x.at(std::stoul(k)), s["val"], true); }
        else { set(x, pair(k, s["val"]), true); }
    }
    else if (op == "update") { set(x, s["val"], true); }
    else if (op == "extend") {
        if (s["style"] == "self") { for (size_t i = 0, n = x.size(); i < n; ++i) { auto w = tree(x[i], false); set(x.push(kind(w)), w, false); } }
        for (auto &w : s["vals"]) { set(x.push(kind(w)), w, false); }
    }
    else if (op == "copy") {
        auto w = tree(nav(roots[s["root2"].get<int>() - 1], s["path2"]), true);
        set(x, pair(s["key"], w), true);
    }
    else if (op == "read") { return tree(x, s["style"] == "iter"); }
    else if (op == "has") { return x.has_subkey(s["key"].get<std::string>().c_str()); }
    else if (op == "bad") {
        std::string k = s["key"];
        if (s["what"] == "add") { x.set_value(1); }
        else if (s["arr"]) { x[std::stoul(k)]; } else { x[k.c_str()]; }
    }
    return "ok";
}
struct Ev : SolveEventHandler {
    json obs = json::array();
    json const *ops = nullptr;
    int calls = 0;
    void on_statistics(UserStatistics step, UserStatistics accu) override {
        ++calls;
        UserStatistics roots[] = {step, accu};
        for (auto &s : *ops) {
            try { obs.push_back(one(roots, s)); }
            catch (std::exception const &e) { obs.push_back("error"); }
        }
    }
};
} // namespace sta

OP(s_new) {
    d.st.erase("stat");
    auto x = std::make_shared<sta::St>();
    x->opt = s["opt"];
    std::vector<char const *> args = {"0"};
    if (x->opt > 0) { args.push_back("--opt-mode=optN"); }
    x->c.reset(new Control{args});
    x->c->add("base", {}, x->opt == 0 ? "{a;b}." : x->opt == 1 ? "1{a;b}. #minimize{1,a:a;2,b:b}." : "1{a;b}. #minimize{1@2,a:a;2@2,b:b;5@1,a:a}.");
    x->c->ground({{"base", {}}});
    d.st["stat"] = x;
    return nullptr;
}
OP(s_run) {
    auto &c = *sta::get(d).c;
    sta::Ev ev;
    ev.ops = &s["ops"];
    if (s["mode"] == "cb") { c.solve(LiteralSpan{}, &ev, false, false).get(); }
    else if (s["mode"] == "yield") { for (auto &m : c.solve(LiteralSpan{}, &ev, false, true)) { static_cast<void>(m); } }
    else { c.solve(LiteralSpan{}, &ev, true, false).get(); }
    return {{"ops", ev.obs}, {"calls", ev.calls}};
}
OP(s_read) {
    auto st = sta::get(d).c->statistics();
    auto part = [&](char const *n) -> json { if (st.has_subkey(n)) { return sta::tree(st[n], false); } return {{"t", "m"}, {"e", json::array()}}; };
    auto sm = st["summary"];
    json costs = json::array();
    for (auto x : sm["costs"]) { costs.push_back(x.value()); }
    double n = sm["models"].at("enumerated");
    return {{"step", part("user_step")}, {"accu", part("user_accu")}, {"call", sm["call"].value()}, {"costs", costs},
            {"optimal", sm["models"]["optimal"].value()}, {"models", n > 0 && sta::get(d).opt > 0 ? -1 : n}};
}
