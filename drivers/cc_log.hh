// Messages (C22)
#pragma once
#include <unistd.h>

namespace lg {
struct St : State {
    std::vector<std::unique_ptr<Control>> c;
};
static St &get(Driver &d) { return static_cast<St &>(*d.st["log"]); }
struct Seen { std::string who, code, text; };
static std::vector<Seen> seen;
static char const *name(WarningCode c) {
    switch (c) {
        case WarningCode::OperationUndefined: return "OperationUndefined";
        case WarningCode::RuntimeError: return "RuntimeError";
        case WarningCode::AtomUndefined: return "AtomUndefined";
        case WarningCode::FileIncluded: return "FileIncluded";
        case WarningCode::VariableUnbounded: return "VariableUnbounded";
        case WarningCode::GlobalVariable: return "GlobalVariable";
        default: return "Other";
    }
}
static Logger logger(std::string tag) {
    return [tag](WarningCode c, char const *t) { seen.push_back({tag, name(c), t}); };
}
template <class F>
static json capture(F f) {
    seen.clear();
    fflush(stderr);
    int old = dup(2);
    FILE *tmp = tmpfile();
    dup2(fileno(tmp), 2);
    bool ok = true;
    std::string odd;
    try { f(); }
    catch (std::runtime_error const &) { ok = false; }
    catch (std::exception const &e) { ok = false; odd = e.what(); }
    fflush(stderr);
    std::cerr.flush();
    dup2(old, 2);
    close(old);
    rewind(tmp);
    std::string raw;
    char buf[4096];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, tmp)) > 0) { raw.append(buf, n); }
    fclose(tmp);
    std::set<std::string> who;
    json msgs = json::array();
    for (auto &x : seen) {
        who.insert(x.who);
        json m = json::array(); m.push_back(x.code); m.push_back(x.text);
        msgs.push_back(m);
    }
    if (!raw.empty()) {
        who.insert("stderr");
        json m = json::array(); m.push_back("?"); m.push_back(raw);
        msgs.push_back(m);
    }
    std::string to;
    for (auto &x : who) { to += (to.empty() ? "" : ",") + x; }
    json r;
    r["ok"] = ok;
    r["to"] = to.empty() ? "nobody" : to;
    r["msgs"] = msgs;
    if (!odd.empty()) { r["to"] = odd; }
    return r;
}
static std::string text(json const &s) {
    std::string t;
    for (auto &x : s["lines"]) { t += x.get<std::string>() + "\n"; }
    return t;
}
static std::string stored(std::string const &t, std::string const &name = "prg") {
    std::ofstream(name + ".lp") << t;
    return name + ".lp";
}
} // namespace lg

OP(l_start) {
    auto x = std::make_shared<lg::St>();
    std::ofstream("inc.lp") << "inc.\n";
    d.st["log"] = x;
    return nullptr;
}
OP(l_new) {
    auto &c = lg::get(d).c;
    std::vector<std::string> as = s["args"];
    std::vector<char const *> a;
    for (auto &x : as) { a.push_back(x.c_str()); }
    unsigned lim = s["lim"];
    if (s["log"]) { c.emplace_back(new Control{a, lg::logger("c" + std::to_string(c.size() + 1)), lim}); }
    else { c.emplace_back(new Control{a, nullptr, lim}); }
    return nullptr;
}
OP(l_add) {
    auto &c = *lg::get(d).c[s["c"].get<int>() - 1];
    std::string how = s["how"], part = s["part"], t = lg::text(s), pt = "#program " + part + ". " + t;
    return lg::capture([&]() {
        if (how == "add") { c.add(part.c_str(), {}, t.c_str()); }
        else if (how == "load") { c.load(lg::stored(pt, part).c_str()); }
        else {
            AST::with_builder(c, [&](AST::ProgramBuilder &b) {
                AST::parse_string(pt.c_str(), [&b](AST::Node const &n) { b.add(n); });
            });
        }
    });
}
OP(l_ground) {
    auto &c = *lg::get(d).c[s["c"].get<int>() - 1];
    std::string part = s["part"];
    return lg::capture([&]() { c.ground({{part.c_str(), {}}}); });
}
OP(l_parse) {
    std::string t = lg::text(s);
    unsigned lim = s["lim"];
    Logger l = s["log"] ? lg::logger("parser") : Logger{};
    return lg::capture([&]() {
        auto f = [](AST::Node const &) {};
        if (s["how"] == "string") { AST::parse_string(t.c_str(), f, l, lim); }
        else { AST::parse_files({lg::stored(t).c_str()}, f, l, lim); }
    });
}
OP(l_term) {
    std::string t = s["text"];
    unsigned lim = s["lim"];
    auto r = lg::capture([&]() { parse_term(t.c_str(), s["log"] ? lg::logger("term") : Logger{}, lim); });
    r.erase("msgs");
    return r;
}
