// The configuration tree (C16)
#pragma once

namespace cf {
struct St : State {
    std::unique_ptr<Control> c;
};
static St &get(Driver &d) { return static_cast<St &>(*d.st["conf"]); }

static Configuration nav(Configuration c, json const &path, std::string const &style, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        std::string x = path[i];
        if (!x.empty() && std::isdigit(x[0])) {
            size_t k = std::stoul(x);
            if (style == "iter") {
                if (k % 2 == 0) {
                    size_t j = 0;
                    std::vector<Configuration> all;
                    for (auto y : c) { all.push_back(y); ++j; }
                    if (j != c.size()) { throw std::out_of_range("size"); }
                    c = all.at(k);
                }
                else {
                    auto it = c.begin();
                    it += k;
                    if (c.end() - it != static_cast<ptrdiff_t>(c.size() - k)) { throw std::out_of_range("distance"); }
                    c = *it;
                }
            }
            else if (style == "get") { c = c.at(k); }
            else { c = c[k]; }
        }
        else if (style == "attr") { c = c[x.c_str()]; }
        else { c = c.get(x.c_str()); }
    }
    return c;
}
static json value(Configuration c, json const &p, std::string const &style) {
    auto x = nav(c, p, style, p.size());
    if (!x.is_value()) { return "not a value"; }
    if (!x.is_assigned()) { return "unset"; }
    if (style == "attr") { return x.value(); }
    std::string y = x;
    return y;
}
template <class F> static json guard(F f) {
    try { return f(); }
    catch (std::exception const &) { return {{"error", "error"}}; }
}
} // namespace cf

OP(c_new) {
    d.st.erase("conf");
    auto x = std::make_shared<cf::St>();
    std::string t = "-t" + s["n"].dump();
    std::vector<char const *> a;
    if (s["n"] > 1) { a.push_back(t.c_str()); }
    x->c.reset(new Control{StringSpan{a}, [](WarningCode, char const *) {}});
    x->c->add("base", {}, "{a;b}.");
    x->c->ground({{"base", {}}});
    d.st["conf"] = x;
    return nullptr;
}
OP(c_set) {
    return cf::guard([&]() -> json {
        auto &p = s["path"];
        auto c = cf::nav(cf::get(d).c->configuration(), p, s["style"], p.size());
        std::string v = s["val"];
        c = v.c_str();
        return "ok";
    });
}
OP(c_get) { return cf::guard([&]() -> json { return cf::value(cf::get(d).c->configuration(), s["path"], s["style"]); }); }
OP(c_dump) {
    json r = json::array();
    auto c = cf::get(d).c->configuration();
    for (auto &p : s["paths"]) { r.push_back(cf::value(c, p, s["style"])); }
    return r;
}
OP(c_keys) {
    auto c = cf::nav(cf::get(d).c->configuration(), s["path"], "attr", s["path"].size());
    json r = json::array();
    auto ks = c.keys();
    for (auto k = ks.begin(); k != ks.end(); ++k) { r.push_back(*k); }
    size_t n = r.size();
    // any order of access
    for (size_t i = n; i-- > 0; ) {
        if (r[i] != std::string(*(ks.begin() + i)) || r[i] != std::string(*(ks.end() - (n - i)))) { return "keys"; }
    }
    if (ks.size() != n) { return "size"; }
    return r;
}
OP(c_desc) {
    return cf::guard([&]() -> json {
        return cf::nav(cf::get(d).c->configuration(), s["path"], "attr", s["path"].size()).decription();
    });
}
OP(c_size) {
    auto c = cf::nav(cf::get(d).c->configuration(), s["path"], "attr", s["path"].size());
    size_t n = c.size();
    if (c.empty() != (n == 0) || c.end() - c.begin() != static_cast<ptrdiff_t>(n)) { return "size"; }
    return {{"size", n}, {"array", c.is_array()}};
}
OP(c_kind) {
    auto c = cf::nav(cf::get(d).c->configuration(), s["path"], "attr", s["path"].size());
    json r = {{"map", c.is_map()}, {"array", c.is_array()}, {"value", c.is_value()}};
    if (c.is_value()) { r["assigned"] = c.is_assigned(); } else { r["assigned"] = "none"; }
    return r;
}
OP(c_at) {
    return cf::guard([&]() -> json {
        auto c = cf::nav(cf::get(d).c->configuration(), s["path"], "attr", s["path"].size());
        c[s["i"].get<size_t>()];
        return "ok";
    });
}
OP(c_solve) {
    size_t n = 0;
    for (auto &m : cf::get(d).c->solve()) { static_cast<void>(m); ++n; }
    return n;
}
