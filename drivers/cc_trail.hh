// Recording what propagators see (C07)
#pragma once
#include <mutex>

namespace tr {
inline char const *val(Assignment const &a, literal_t x) {
    auto v = a.truth_value(x);
    return v == TruthValue::True ? "t" : v == TruthValue::False ? "f" : "u";
}
inline json snap(Assignment const &a) {
    auto t = a.trail();
    uint32_t dl = a.decision_level();
    json s = {{"dl", dl}, {"root", a.root_level()}, {"conf", a.has_conflict()}, {"total", a.is_total()}, {"size", a.size()}};
    for (auto k : {"trail", "index", "begin", "end", "dec", "seg", "rev", "lits", "vals", "alits"}) { s[k] = json::array(); }
    for (auto x : t) { s["trail"].push_back(x); }
    for (uint32_t i = 0; i < t.size(); ++i) { s["index"].push_back(i % 2 ? t[i] : t.at(i)); }
    for (auto it = t.end(); it != t.begin();) { s["rev"].push_back(*--it); }
    for (uint32_t l = 0; l <= dl; ++l) {
        s["begin"].push_back(t.begin_offset(l));
        s["end"].push_back(t.end_offset(l));
        s["dec"].push_back(a.decision(l));
        json g = json::array();
        for (auto it = t.begin(l), ie = t.end(l); it != ie; ++it) { g.push_back(*it); }
        s["seg"].push_back(g);
    }
    for (auto x : a) { s["lits"].push_back(x); }
    for (size_t i = 0; i < a.size(); ++i) { s["alits"].push_back(i % 2 ? a[i] : a.at(i)); }
    for (int sign : {1, -1}) {
        for (auto y : a) {
            literal_t x = sign * y;
            json v = json::array();
            v.push_back(x);
            v.push_back(val(a, x));
            v.push_back(a.is_true(x));
            v.push_back(a.is_false(x));
            v.push_back(a.truth_value(x) == TruthValue::Free);
            v.push_back(a.is_fixed(x));
            v.push_back(a.truth_value(x) == TruthValue::Free ? 0 : static_cast<int>(a.level(x)));
            v.push_back(a.has_literal(x));
            s["vals"].push_back(v);
        }
    }
    literal_t n = static_cast<literal_t>(a.size());
    s["beyond"] = json::array();
    s["beyond"].push_back(a.has_literal(n + 1));
    s["beyond"].push_back(a.has_literal(-n - 1));
    return s;
}
template <class S> json list(S const &s) {
    json r = json::array();
    for (auto x : s) { r.push_back(x); }
    return r;
}
struct Core {
    json conf, todo, log = json::array();
    std::map<std::string, literal_t> map;
    std::recursive_mutex lock;
    std::atomic<int> k{0};
    bool full = false;
    void rec(char const *e, Assignment const *a, json d) {
        std::lock_guard<std::recursive_mutex> g(lock);
        if (log.size() >= conf["events"].get<size_t>()) { full = true; return; }
        d["ev"] = e;
        if (a) { d["s"] = snap(*a); }
        log.push_back(d);
    }
    literal_t lit(json const &l) { auto x = map.at(l[0].get<std::string>()); return l[1] == 1 ? x : -x; }
    std::set<literal_t> watchable() {
        std::set<literal_t> r;
        for (auto &x : map) { r.insert(x.second); }
        return r;
    }
    void init(PropagateInit &init) {
        map.clear();
        std::vector<std::string> names{"b1", "b2", "c", "d"};
        for (int i = 1; i <= conf["n"].get<int>(); ++i) { names.push_back("a" + std::to_string(i)); }
        for (auto &n : names) {
            auto at = init.symbolic_atoms();
            auto it = at.find(Id(n.c_str()));
            map[n] = it == at.end() ? -1 : init.solver_literal((*it).literal());
        }
        std::string m = conf["mode"];
        init.set_check_mode(m == "total" ? PropagatorCheckMode::Total : m == "fixpoint" ? PropagatorCheckMode::Partial
                            : m == "off" ? PropagatorCheckMode::None : PropagatorCheckMode::Both);
        int n = init.number_of_threads();
        std::vector<std::vector<literal_t>> watch(n), unwatch(n);
        std::string w = todo["watch"];
        int j = 0;
        for (auto x : watchable()) {
            for (int e = 0; e < 2; ++e) {
                literal_t y = e ? -x : x;
                if (w == "all" || (w == "pos" && !e) || (w == "neg" && e) || (w == "some" && (j + e) % 2 == 0)) {
                    init.add_watch(y);
                    for (auto &v : watch) { v.push_back(y); }
                    if (w == "all" && conf["seq"].get<bool>() && j % 3 == 1) {
                        init.remove_watch(y);
                        for (int t = 0; t < n; ++t) { watch[t].pop_back(); unwatch[t].push_back(y); }
                    }
                } else if (w == "thread") {
                    int t = (j + e) % n;
                    init.add_watch(y, static_cast<id_t>(t));
                    watch[t].push_back(y);
                    if (j % 3 == 0) {
                        init.remove_watch(y, static_cast<id_t>(t));
                        watch[t].pop_back();
                        unwatch[t].push_back(y);
                    }
                }
            }
            ++j;
        }
        bool upset = false;
        for (auto &l : todo["lazy"]) { upset = upset || l["when"] == "check"; }
        auto a = init.assignment();
        rec("init", &a, {{"watch", watch}, {"unwatch", unwatch}, {"mode", conf["mode"]}, {"thr", n}, {"upset", upset}, {"threads", conf["threads"]}});
    }
    void interfere(PropagateControl &ctl, char const *when) {
        auto a = ctl.assignment();
        for (auto &l : todo["lazy"]) {
            if (l["when"] != when) { continue; }
            std::vector<literal_t> ls;
            bool ng = l["k"] == "nogood", all = true;
            for (auto &x : l["lits"]) {
                ls.push_back(ng ? -lit(x) : lit(x));
                all = all && a.is_false(ls.back());
            }
            bool tag = l["tag"], lk = l["lock"];
            if (all && (!ctl.add_clause(ls, tag ? (lk ? ClauseType::VolatileStatic : ClauseType::Volatile) : (lk ? ClauseType::Static : ClauseType::Learnt)) || !ctl.propagate())) { return; }
        }
    }
    void rewatch(PropagateControl &ctl, literal_t x, bool add) {
        x = k % 2 ? x : -x;
        bool on = !ctl.has_watch(x);
        if (add && !on) { return; }
        if (on) { ctl.add_watch(x); } else { ctl.remove_watch(x); }
        rec("watch", nullptr, {{"tid", ctl.thread_id()}, {"lit", x}, {"has", ctl.has_watch(x)}, {"on", on}, {"val", ctl.assignment().is_true(x)}});
    }
    void propagate(PropagateControl &ctl, LiteralSpan ch) {
        json idx = json::array(), half = json::array();
        for (size_t i = 0; i < ch.size(); ++i) { idx.push_back(ch[i]); if (i < ch.size() / 2) { half.push_back(ch[i]); } }
        auto a = ctl.assignment();
        rec("propagate", &a, {{"tid", ctl.thread_id()}, {"ch", list(ch)}, {"idx", idx}, {"half", half}});
        if (todo["dyn"] == 1) { rewatch(ctl, map["a1"], true); }
        interfere(ctl, "prop");
    }
    void undo(PropagateControl const &ctl, LiteralSpan ch) {
        auto a = ctl.assignment();
        rec("undo", &a, {{"tid", ctl.thread_id()}, {"ch", list(ch)}});
    }
    void check(PropagateControl &ctl) {
        auto a = ctl.assignment();
        rec("check", &a, {{"tid", ctl.thread_id()}});
        ++k;
        if (todo["dyn"] == 2) { rewatch(ctl, map["a2"], false); }
        interfere(ctl, "check");
    }
    literal_t decide(id_t t, Assignment const &a, literal_t fb) {
        literal_t r = 0;
        int n = ++k, p = conf["decide"];
        if (p == 2) { r = fb; }
        else if (p == 3) {
            int i = 0;
            for (auto x : watchable()) {
                if (a.truth_value(x) == TruthValue::Free && (i + n) % 2 == 0) { r = n % 3 ? x : -x; break; }
                ++i;
            }
        }
        rec("decide", &a, {{"tid", t}, {"fb", fb}, {"res", r}});
        return r;
    }
};
struct Rec : Propagator {
    Core c;
    void init(PropagateInit &x) override { c.init(x); }
    void propagate(PropagateControl &x, LiteralSpan ch) override { c.propagate(x, ch); }
    void undo(PropagateControl const &x, LiteralSpan ch) noexcept override { c.undo(x, ch); }
    void check(PropagateControl &x) override { c.check(x); }
};
struct RecH : Heuristic {
    Core c;
    void init(PropagateInit &x) override { c.init(x); }
    void propagate(PropagateControl &x, LiteralSpan ch) override { c.propagate(x, ch); }
    void undo(PropagateControl const &x, LiteralSpan ch) noexcept override { c.undo(x, ch); }
    void check(PropagateControl &x) override { c.check(x); }
    literal_t decide(id_t t, Assignment const &a, literal_t fb) override { return c.decide(t, a, fb); }
};
struct St : State {
    RecH h;
    Rec r, other;
    std::vector<Core *> recs;
    std::unique_ptr<Control> c;
};
} // namespace tr

OP(tr_new) {
    d.st.erase("trail");
    auto x = std::make_shared<tr::St>();
    std::string t = "-t" + std::to_string(s["threads"].get<int>()), cf = s["conf"];
    std::vector<char const *> args{"0"};
    if (!cf.empty()) { args.push_back(cf.c_str()); }
    if (s["threads"] > 1) { args.push_back(t.c_str()); }
    x->c.reset(new Control{args, nullptr, 0});
    x->c->add("base", {}, s["text"].get<std::string>().c_str());
    x->c->ground({{"base", {}}});
    bool seq = s["seq"];
    if (s["decide"] != 0) { x->c->register_propagator(x->h, seq); x->recs.push_back(&x->h.c); }
    else { x->c->register_propagator(x->r, seq); x->recs.push_back(&x->r.c); }
    if (s["other"].get<bool>()) { x->c->register_propagator(x->other, seq); x->recs.push_back(&x->other.c); }
    for (auto *r : x->recs) { r->conf = s; }
    d.st["trail"] = x;
    return nullptr;
}
OP(tr_solve) {
    auto &x = static_cast<tr::St &>(*d.st["trail"]);
    bool first = true;
    for (auto *r : x.recs) {
        r->todo = s;
        if (!first) { r->todo["lazy"] = json::array(); r->todo["dyn"] = 0; r->todo["watch"] = "all"; }
        first = false;
    }
    x.c->configuration()["solve"]["models"] = std::to_string(s["models"].get<int>()).c_str();
    std::vector<SymbolicLiteral> ass;
    for (auto &a : s["assume"]) { ass.emplace_back(Id(a[0].get<std::string>().c_str()), a[1] == 1); }
    int n = 0;
    if (s["how"] == "yield") {
        auto h = x.c->solve(SymbolicLiteralSpan{ass});
        for (auto &m : h) { static_cast<void>(m); ++n; }
        h.get();
    } else {
        struct H : SolveEventHandler {
            int *n;
            bool on_model(Model &) override { ++*n; return true; }
        } e;
        e.n = &n;
        x.c->solve(SymbolicLiteralSpan{ass}, &e, false, false).get();
    }
    return {{"n", n}};
}
OP(tr_get) {
    auto &x = static_cast<tr::St &>(*d.st["trail"]);
    json r = json::array();
    for (auto *c : x.recs) { r.push_back({{"full", c->full}, {"ev", c->log}}); }
    return r;
}
