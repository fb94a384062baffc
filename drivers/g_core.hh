// Interval sets (G01) and dependency analysis (G02)
#pragma once

namespace iv {
using IS = Gringo::IntervalSet<int>;
struct St {
    IS s[2];
    int b = 0;
};
inline IS::Interval in(json const &v) {
    return {{v["l"].get<int>(), v["li"].get<bool>()}, {v["r"].get<int>(), v["ri"].get<bool>()}};
}
inline json one(IS const &s) {
    json l = json::array();
    size_t n = 0;
    bool same = true;
    for (auto &x : s) {
        l.push_back({{"l", x.left.bound}, {"li", x.left.inclusive}, {"r", x.right.bound}, {"ri", x.right.inclusive}});
        if (n == 0) { same = same && &x == &s.front(); }
        if (n + 1 == s.size()) { same = same && &x == &s.back(); }
        ++n;
    }
    if (!same || n != static_cast<size_t>(std::distance(begin(s), end(s)))) { l = "front, back and begin, end"; }
    return {{"iv", l}, {"size", s.size()}, {"empty", s.empty()}};
}
inline json both(St &x) { return json::array({one(x.s[0]), one(x.s[1])}); }
inline std::vector<IS::Interval> all(int b) {
    std::vector<IS::Interval> r;
    for (int l = 0; l < b; ++l) { for (int q = 0; q < b; ++q) { for (int a = 0; a < 2; ++a) { for (int c = 0; c < 2; ++c) { r.push_back({{l, a == 1}, {q, c == 1}}); } } } }
    return r;
}
} // namespace iv

OP(iv_new) {
    auto &x = d.get<iv::St>("iv");
    x.b = s["b"];
    x.s[0].clear();
    for (auto &v : s["list"]) { x.s[0].add(iv::in(v)); }
    x.s[1] = iv::IS();
    return iv::both(x);
}
OP(iv_add) {
    auto &x = d.get<iv::St>("iv");
    auto v = iv::in(s["v"]);
    if (v.left.bound % 2) { x.s[s["s"].get<int>() - 1].add(v); }
    else { x.s[s["s"].get<int>() - 1].add(v.left.bound, v.left.inclusive, v.right.bound, v.right.inclusive); }
    return iv::both(x);
}
OP(iv_remove) {
    auto &x = d.get<iv::St>("iv");
    auto v = iv::in(s["v"]);
    if (v.left.bound % 2) { x.s[s["s"].get<int>() - 1].remove(v); }
    else { x.s[s["s"].get<int>() - 1].remove(v.left.bound, v.left.inclusive, v.right.bound, v.right.inclusive); }
    return iv::both(x);
}
OP(iv_list) {
    auto &x = d.get<iv::St>("iv");
    auto &t = x.s[s["s"].get<int>() - 1];
    auto &v = s["v"];
    switch (v.size()) {
        case 0: t = iv::IS{std::initializer_list<iv::IS::Interval>{}}; break;
        case 1: t = iv::IS(iv::in(v[0])); break;
        case 2: t = {iv::in(v[0]), iv::in(v[1])}; break;
        default: t = {iv::in(v[0]), iv::in(v[1]), iv::in(v[2])}; break;
    }
    return iv::both(x);
}
OP(iv_op) {
    auto &x = d.get<iv::St>("iv");
    int i = s["s"].get<int>() - 1;
    std::string k = s["k"];
    if (k == "copy") { iv::IS t(x.s[i]); x.s[1 - i] = std::move(t); }
    else if (k == "assign") { x.s[1 - i] = x.s[i]; }
    else if (k == "move") { x.s[1 - i] = std::move(x.s[i]); x.s[i].clear(); }
    else if (k == "clear") { x.s[i].clear(); }
    else if (k == "intersect") { x.s[i] = x.s[i].intersect(x.s[1 - i]); }
    else { x.s[i] = x.s[i].difference(x.s[1 - i]); }
    return iv::both(x);
}
OP(iv_binary) {
    auto &x = d.get<iv::St>("iv");
    x.s[1].clear();
    for (auto &v : s["list"]) { x.s[1].add(iv::in(v)); }
    x.s[0] = s["k"] == "intersect" ? x.s[0].intersect(x.s[1]) : x.s[0].difference(x.s[1]);
    return iv::both(x);
}
OP(iv_ask) {
    auto &x = d.get<iv::St>("iv");
    json r = json::array();
    for (auto &t : x.s) {
        std::string a, b;
        for (auto &v : iv::all(x.b)) {
            a += t.contains(v) ? "1" : "0";
            b += t.intersects(v) ? "1" : "0";
        }
        r.push_back({{"contains", a}, {"intersects", b}});
    }
    return r;
}
namespace gr {
using G = Gringo::Graph<int>;
struct St {
    G g;
    std::map<int, G::Node *> n;
    void grow(json const &s) {
        for (int i = static_cast<int>(n.size()) + 1; i <= s["n"].get<int>(); ++i) { n[i] = &g.insertNode(i); }
        for (auto &e : s["e"]) { n[e[0].get<int>()]->insertEdge(*n[e[1].get<int>()]); }
    }
};
} // namespace gr
OP(gr_new) {
    d.st["gr"] = nullptr;
    d.get<gr::St>("gr").grow(s);
    return "ok";
}
OP(gr_grow) { d.get<gr::St>("gr").grow(s); return "ok"; }
OP(gr_scc) {
    auto &x = d.get<gr::St>("gr");
    json r = json::array();
    std::map<int, int> pos, least;
    int i = 0;
    for (auto &c : x.g.tarjan()) {
        json l = json::array();
        int m = c.empty() ? 0 : c[0]->data;
        for (auto *n : c) { l.push_back(n->data); m = std::min(m, n->data); }
        pos[m] = i++;
        r.push_back({{"bag", l}});
    }
    bool ordered = true;
    for (auto &p : s["need"]) {
        int a = p[0], b = p[1];
        ordered = ordered && pos.count(a) && pos.count(b) && pos[b] < pos[a];
    }
    return {{"sccs", {{"bag", r}}}, {"ordered", ordered}};
}
