// Interrupting searches (C25)
#pragma once
#include <condition_variable>
#include <thread>
#include <unistd.h>

namespace in {
// a search that does not end within 20 seconds ends the process
struct Alarm {
    std::mutex m;
    std::condition_variable cv;
    bool done = false;
    std::thread t{[this]() {
        std::unique_lock<std::mutex> l(m);
        if (!cv.wait_for(l, std::chrono::seconds(20), [this]() { return done; })) { _exit(77); }
    }};
    ~Alarm() {
        { std::lock_guard<std::mutex> l(m); done = true; }
        cv.notify_all();
        t.join();
    }
};
inline std::string fl(SolveResult r) {
    std::string s = r.is_satisfiable() ? "S" : r.is_unsatisfiable() ? "U" : "?";
    return s + (r.is_exhausted() ? "e" : "") + (r.is_interrupted() ? "i" : "");
}
struct Pr : Propagator {
    std::mutex m;
    std::string pt;
    int k = 0;
    std::function<void()> f;
    std::map<std::string, int> n;
    void begin(std::string p, int kk, std::function<void()> g) { pt = p; k = kk; f = g; n.clear(); }
    void at(std::string const &ev) {
        bool go;
        { std::lock_guard<std::mutex> l(m); go = ++n[ev] == k && pt == ev; }
        if (go) { f(); }
    }
    void init(PropagateInit &init) override {
        init.set_check_mode(PropagatorCheckMode::Total);
        for (auto a : init.symbolic_atoms()) {
            auto l = init.solver_literal(a.literal());
            init.add_watch(l);
            init.add_watch(-l);
        }
        at("init");
    }
    void propagate(PropagateControl &, LiteralSpan) override { at("prop"); }
    void undo(PropagateControl const &, LiteralSpan) noexcept override { at("undo"); }
    void check(PropagateControl &) override { at("check"); }
};
struct Ev : SolveEventHandler {
    std::string log;
    int n = 0;
    std::set<std::string> seen;
    std::vector<std::string> fin;
    std::string pt;
    int k = 0;
    std::function<void()> f;
    bool on_model(Model &m) override {
        log += "M";
        ++n;
        std::vector<std::string> v;
        for (auto &x : m.symbols(ShowType::Atoms)) { v.push_back(x.to_string()); }
        std::sort(v.begin(), v.end());
        std::string t;
        for (auto &x : v) { t += x + " "; }
        seen.insert(t);
        if (pt == "model" && n == k) { f(); }
        return !(pt == "stop" && n == k);
    }
    void on_statistics(UserStatistics, UserStatistics) override { log += "S"; if (pt == "stat") { f(); } }
    void on_finish(SolveResult r) override { log += "F"; fin.push_back(fl(r)); if (pt == "finish") { f(); } }
};
struct St : State {
    Pr pr;
    std::unique_ptr<Control> c;
    int gi = 0;
};
inline St &get(Driver &d) { return static_cast<St &>(*d.st["intr"]); }
} // namespace in

OP(in_new) {
    auto p = std::make_shared<in::St>();
    d.st["intr"] = p;
    std::string t = "-t" + std::to_string(s["t"].get<int>());
    std::vector<char const *> args{"0"};
    if (s["t"] > 1) { args.push_back(t.c_str()); }
    p->c.reset(new Control{StringSpan{args.data(), args.size()}, [](WarningCode, char const *) {}});
    std::string prg = "{a(1.." + std::to_string(s["n"].get<int>()) + ")}. {hard}. 1{p(X,Y):Y=1..12}1 :- X=1..13, hard. :- p(X,Y),p(X2,Y),X<X2.";
    p->c->add("base", {}, prg.c_str());
    p->c->add("g", {"s"}, "#external g(@intr(s)).");
    p->c->ground({{"base", {}}});
    p->c->register_propagator(p->pr, false);
    return "ok";
}
OP(in_int) {
    auto &x = in::get(d);
    if (s["via"] == "main") { x.c->interrupt(); }
    else if (s["via"] == "thread") { std::thread t([&x]() { x.c->interrupt(); }); t.join(); }
    else {
        Symbol a = Number(++x.gi);
        x.c->ground({{"g", SymbolSpan{&a, 1}}}, [&x](Location, char const *, SymbolSpan args, SymbolSpanCallback ret) { x.c->interrupt(); ret(args); });
    }
    return "ok";
}
OP(in_solve) {
    in::Alarm alarm;
    auto &x = in::get(d);
    std::string pt = s["pt"], how = s["how"];
    int k = s["k"], y = 0;
    x.c->configuration()["solve"]["models"] = std::to_string(s["lim"].get<int>()).c_str();
    auto intr = [&x]() { x.c->interrupt(); };
    x.pr.begin(pt, k, intr);
    in::Ev ev;
    ev.pt = pt;
    ev.k = k;
    ev.f = intr;
    std::vector<SymbolicLiteral> ass{SymbolicLiteral{Id("hard"), false}};
    std::string res;
    {
        auto h = x.c->solve(SymbolicLiteralSpan{ass.data(), ass.size()}, &ev, how == "a" || how == "ya", how == "y" || how == "ya");
        if (how == "y" || how == "ya") {
            for (auto &m : h) {
                (void)m;
                ++y;
                if (pt == "cancel" && y == k) { h.cancel(); break; }
                if (pt == "iy" && y == k) { intr(); }
            }
        }
        if (how == "a" && pt == "after") { h.wait(); intr(); }
        res = in::fl(h.get());
        if (how != "a" && pt == "after") { intr(); }
    }
    std::string rest = ev.log.substr(ev.n);
    return {{"m", ev.n}, {"log", rest.find('M') != std::string::npos ? ev.log : (ev.n ? "M" : "") + rest}, {"res", res}, {"y", y},
            {"over", ev.fin == std::vector<std::string>{res} && static_cast<int>(ev.seen.size()) == ev.n}};
}
OP(in_hard) {
    in::Alarm alarm;
    auto &x = in::get(d);
    std::string via = s["via"], how = s["how"];
    double sec = s["d"].get<int>() / 1000.0;
    auto intr = [&x]() { x.c->interrupt(); };
    x.pr.begin("prop", 1, via == "prop" ? std::function<void()>(intr) : []() {});
    in::Ev ev;
    std::vector<SymbolicLiteral> ass{SymbolicLiteral{Id("hard"), true}};
    std::string res;
    bool early = false, ok = true;
    std::thread t;
    auto later = [&]() { t = std::thread([&]() { std::this_thread::sleep_for(std::chrono::microseconds(static_cast<int>(sec * 1e6))); intr(); }); };
    if (via == "thread" && how == "sync") { later(); }
    {
        auto h = x.c->solve(SymbolicLiteralSpan{ass.data(), ass.size()}, &ev, how == "a" || how == "ya", how == "ya");
        if (how != "sync") {
            early = h.wait(sec);
            if (via == "thread") { later(); }
            if (via == "main") { intr(); }
            if (via == "cancel") { h.cancel(); ok = h.wait(0); }
        }
        if (via != "leave") {
            if (how != "sync") { ok = h.wait(15) && ok; }
            res = in::fl(h.get());
        }
    }
    if (via == "leave" && !ev.fin.empty()) { res = ev.fin[0]; }
    if (t.joinable()) { t.join(); }
    return {{"log", ev.log}, {"res", res}, {"over", ok && ev.fin == std::vector<std::string>{res}}, {"early", early}};
}
