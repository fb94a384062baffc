// Solve handles and events (C05)
#pragma once

namespace hd {
struct Seen {
    std::map<uint64_t, std::string> d;
    bool ok = true;
    std::mutex mut;
    uint64_t add(Model const &m) {
        std::vector<std::string> ss;
        for (auto &x : m.symbols(ShowType::Atoms)) { ss.push_back(x.to_string()); }
        std::sort(ss.begin(), ss.end());
        std::string t;
        for (auto &x : ss) { t += x + " "; }
        std::lock_guard<std::mutex> g{mut};
        auto r = d.emplace(m.number(), t);
        if (r.first->second != t) { ok = false; }
        int n = 0;
        for (auto &x : d) { n += x.second == t; }
        if (n != 1) { ok = false; }
        return m.number();
    }
};
static std::string fl(SolveResult r) {
    std::string s = r.is_satisfiable() ? "S" : r.is_unsatisfiable() ? "U" : "?";
    if (r.is_unknown() != (s == "?") || (r.is_satisfiable() && r.is_unsatisfiable())) { s += "!"; }
    if (r.is_exhausted()) { s += "e"; }
    if (r.is_interrupted()) { s += "i"; }
    return s;
}
struct Ev : SolveEventHandler {
    json log = json::array();
    Seen *seen = nullptr;
    uint64_t stop = 0;
    bool on_model(Model &m) override {
        log.push_back("M" + std::to_string(seen->add(m)));
        return m.number() != stop;
    }
    void on_unsat(Span<int64_t> lower_bound) override {
        std::string s;
        for (auto &x : lower_bound) { s += (s.empty() ? "" : ",") + std::to_string(x); }
        log.push_back("U" + s);
    }
    void on_statistics(UserStatistics, UserStatistics) override { log.push_back("S"); }
    void on_finish(SolveResult r) override { log.push_back("F" + fl(r)); }
};
struct St : State {
    std::unique_ptr<Control> c;
    std::unique_ptr<Ev> ev;
    std::unique_ptr<Seen> seen;
    std::unique_ptr<SolveHandle> h;
    std::string mode;
    ~St() override { h.reset(); c.reset(); }
};
static St &get(Driver &d) { return static_cast<St &>(*d.st["handle"]); }
static int closes() {
    int n = 0;
    for (auto &x : Shim::log()) { n += x["f"] == "solve_handle_close"; }
    Shim::record(false);
    Shim::clear();
    return n;
}
} // namespace hd

OP(h_new) {
    Shim::reset();
    auto p = std::make_shared<hd::St>();
    d.st["handle"] = p;
    std::string lim = std::to_string(s["lim"].get<int>());
    char const *args[] = {lim.c_str()};
    p->c.reset(new Control{StringSpan{args, 1}, [](WarningCode, char const *) {}});
    int k = s["k"];
    std::string prg = k > 0 ? "1{a(1.." + std::to_string(k) + ")}1. #external e. :- e." : "a :- not a. #external e.";
    p->c->add("base", {}, prg.c_str());
    p->c->ground({{"base", {}}});
    return nullptr;
}
OP(h_limit) {
    hd::get(d).c->configuration()["solve"]["models"] = std::to_string(s["i"].get<int>()).c_str();
    return "ok";
}
OP(h_solve) {
    auto &x = hd::get(d);
    x.seen.reset(new hd::Seen());
    x.ev.reset(new hd::Ev());
    x.ev->seen = x.seen.get();
    x.ev->stop = s["stop"];
    x.mode = s["mode"];
    json evs = json::array();
    for (std::string b : s["bounds"]) {
        json v = json::array();
        std::istringstream in(b);
        for (std::string y; std::getline(in, y, ',');) { v.push_back({{"num", y}}); }
        evs.push_back({{"unsat", v}});
    }
    if (!evs.empty()) { Shim::script({{"f", "control_solve"}, {"events", evs}}); }
    std::vector<SymbolicLiteral> ass;
    for (auto &y : s["ass"]) { ass.emplace_back(y == "e" ? Id("e") : Function("a", {Number(1)}), y == "e"); }
    Shim::record(true);
    bool as = x.mode == "a" || x.mode == "ya", yi = x.mode == "y" || x.mode == "ya";
    x.h.reset(new SolveHandle(x.c->solve(SymbolicLiteralSpan{ass}, s["on"].empty() ? nullptr : x.ev.get(), as, yi)));
    return "ok";
}
static json hmodel(hd::St &x, Model const &m) { return m ? json(x.seen->add(m)) : json(0); }
OP(h_get) { return hd::fl(hd::get(d).h->get()); }
OP(h_model) { auto &x = hd::get(d); return hmodel(x, x.h->model()); }
OP(h_next) { auto &x = hd::get(d); return hmodel(x, x.h->next()); }
OP(h_resume) { hd::get(d).h->resume(); return "ok"; }
OP(h_wait) {
    auto &h = *hd::get(d).h;
    if (s["t"] == "none") { h.wait(); return true; }
    return h.wait(std::stod(s["t"].get<std::string>()));
}
OP(h_poll) { return hd::get(d).h->wait(0); }
OP(h_cancel) { hd::get(d).h->cancel(); return "ok"; }
OP(h_core) {
    auto &x = hd::get(d);
    json r = json::array();
    std::map<literal_t, std::string> names;
    auto atoms = x.c->symbolic_atoms();
    auto e = atoms.find(Id("e")), a = atoms.find(Function("a", {Number(1)}));
    if (e) { names[e->literal()] = "e"; }
    if (a) { names[-a->literal()] = "-a1"; }
    for (auto &l : x.h->core()) { r.push_back(names.count(l) ? names[l] : std::to_string(l)); }
    return {{"bag", r}};
}
OP(h_rest) {
    auto &x = hd::get(d);
    json r = json::array();
    int n = 0, brk = s["brk"];
    for (auto &m : *x.h) {
        r.push_back(x.seen->add(m));
        if (++n == brk) { break; }
    }
    return r;
}
OP(h_leave) {
    auto &x = hd::get(d);
    std::string how = "normal";
    if (s["how"] == "raise") {
        struct Leave {};
        try {
            SolveHandle y{std::move(*x.h)};
            x.h.reset();
            throw Leave{};
        }
        catch (Leave const &) { how = "raise"; }
    }
    else if (x.seen->d.size() % 2 == 0) { x.h->close(); x.h.reset(); }
    else { x.h.reset(); }
    return {{"log", x.ev->log}, {"closes", hd::closes()}, {"same", x.seen->ok}, {"how", how}};
}
