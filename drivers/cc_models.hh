// Model objects, optimisation, clauses during enumeration (C02, C03, C04).
namespace {
using See = std::function<void(Model const &)>;
struct SeeHandler : SolveEventHandler {
    See see;
    int finished = 0;
    SolveResult res;
    bool on_model(Model &m) override { see(m); return true; }
    void on_finish(SolveResult r) override { ++finished; res = r; }
};
// handler: pass an event handler also where none is needed (the engine keeps extended symbols otherwise)
SolveResult run_solve(Driver &d, std::string const &mode, See see, bool handler) {
    SolveEventHandler none;
    SolveEventHandler *opt = handler ? &none : nullptr;
    SeeHandler h;
    h.see = see;
    auto loop = [&](SolveHandle &sh, bool wait) {
        while (true) {
            sh.resume();
            if (wait) { sh.wait(); }
            auto &m = sh.model();
            if (!m) { break; }
            see(m);
        }
        return sh.get();
    };
    if (mode == "cb" || mode == "ontrue") { return d.ctl->solve(LiteralSpan{}, &h, false, false).get(); }
    if (mode == "yield") {
        auto sh = d.ctl->solve(LiteralSpan{}, opt);
        for (auto &m : sh) { see(m); }
        return sh.get();
    }
    if (mode == "yieldloop") { auto sh = d.ctl->solve(LiteralSpan{}, opt); return loop(sh, false); }
    if (mode == "async") {
        auto sh = d.ctl->solve(LiteralSpan{}, &h, true, false);
        while (!sh.wait(1.0)) { }
        auto r = sh.get();
        if (h.finished != 1 || h.res != r) { throw std::logic_error("finish"); }
        return r;
    }
    if (mode == "ayield") { auto sh = d.ctl->solve(LiteralSpan{}, opt, true, true); return loop(sh, true); }
    if (mode == "yieldcb") {
        auto sh = d.ctl->solve(LiteralSpan{}, &h, false, true);
        for (auto &m : sh) { (void)m; }
        return sh.get();
    }
    throw std::invalid_argument("unknown mode " + mode);
}
bool wants(json const &s, char const *w) {
    for (auto &x : s["want"]) { if (x == w) { return true; } }
    return false;
}
}
OP(models) {
    json models = json::array(), numbers = json::array();
    bool done = false;
    if (!s["extend"].empty()) { d.extended = true; }
    auto see = [&](Model const &cm) {
        auto &m = const_cast<Model &>(cm);
        if (!s["extend"].empty()) {
            SymbolVector v;
            for (auto &t : s["extend"]) { v.push_back(psym(t)); }
            m.extend(v);
        }
        json r = model_obs(m, s["want"]);
        if (wants(s, "contains")) {
            json c = json::array(), t = json::array();
            bool f = true;
            for (auto &a : s["univ"]) { if (m.contains(psym(a))) { c.push_back(a); } }
            for (auto at : m.context().symbolic_atoms()) {
                if (at.literal() == 0) { continue; }
                if (m.is_true(at.literal())) { t.push_back(at.symbol().to_string()); }
                if (m.is_true(at.literal()) == m.is_true(-at.literal())) { f = false; }
            }
            r["contains"] = {{"bag", c}};
            r["istrue"] = {{"bag", t}};
            r["isfalse"] = f;
        }
        if (wants(s, "threadok")) { r["threadok"] = m.thread_id() < d.threads; }
        models.push_back(r);
        numbers.push_back(m.number());
        if (s.count("policy")) {
            std::string pol = s["policy"], by = s["by"];
            auto con = m.context();
            auto add = [&](std::vector<std::pair<std::string, bool>> const &c, bool nogood) {
                std::vector<literal_t> ll;
                std::vector<SymbolicLiteral> sl;
                bool lits = by == "lit";
                for (auto &x : c) { if (lits && !con.symbolic_atoms().find(psym(x.first))) { lits = false; } }
                for (auto &x : c) {
                    if (lits) {
                        auto l = con.symbolic_atoms().find(psym(x.first))->literal();
                        ll.push_back(x.second ? l : -l);
                    } else { sl.emplace_back(psym(x.first), x.second); }
                }
                if (nogood) {
                    for (auto &l : ll) { l = -l; }
                    for (auto &l : sl) { l = SymbolicLiteral(l.symbol(), !l.is_positive()); }
                }
                {
                    if (lits) { con.add_clause(LiteralSpan{ll}); } else { con.add_clause(SymbolicLiteralSpan{sl}); }
                }
            };
            std::vector<std::pair<std::string, bool>> c;
            if (pol == "block") {
                for (auto &a : s["over"]) { c.emplace_back(a, !m.contains(psym(a))); }
                add(c, false);
            } else if (!done) {
                done = true;
                for (auto &l : s["clause"]) { c.emplace_back(l["a"], l["s"]); }
                add(c, pol == "fixedng");
            }
        }
    };
    json o = result(run_solve(d, s["mode"], see, d.extended));
    o["models"] = models;
    o["numbers"] = numbers;
    return o;
}
