// The reifier of /repo (G06): statements go in, facts come out and are read back.
#pragma once
#include <gringo/input/groundtermparser.hh>
#include <gringo/output/output.hh>
#include <reify/program.hh>
#include <set>

namespace rf {
using namespace Potassco;
using Vec = std::vector<std::string>;
// a fact "name(arg,...,arg)." taken apart
inline std::pair<std::string, Vec> fact(std::string const &line) {
    auto p = line.find('(');
    if (p == std::string::npos || line.size() < 2 || line.substr(line.size() - 2) != ").") { throw std::runtime_error("not a fact: " + line); }
    Vec args;
    std::string cur;
    int depth = 0;
    bool str = false;
    for (size_t i = p + 1; i < line.size() - 2; ++i) {
        char c = line[i];
        if (str) {
            cur += c;
            if (c == '\\') { cur += line[++i]; }
            else if (c == '"') { str = false; }
            continue;
        }
        if (c == '"') { str = true; }
        if (c == '(') { ++depth; }
        if (c == ')') { --depth; }
        if (c == ',' && depth == 0) { args.push_back(cur); cur.clear(); continue; }
        if (c == ' ' || c == '\t') { continue; }
        cur += c;
    }
    args.push_back(cur);
    return {line.substr(0, p), args};
}
inline std::string unquote(std::string const &s) {
    std::string r;
    if (s.size() < 2 || s.front() != '"' || s.back() != '"') { throw std::runtime_error("not a string: " + s); }
    for (size_t i = 1; i + 1 < s.size(); ++i) {
        if (s[i] == '\\') { ++i; r += s[i] == 'n' ? '\n' : s[i]; }
        else { r += s[i]; }
    }
    return r;
}
struct St {
    std::stringbuf buf;
    std::ostream os{&buf};
    TheoryData td;
    std::unique_ptr<Reify::Reifier> direct;
    Gringo::UBackend made;
    std::unique_ptr<Gringo::Output::OutputBase> base;
    Gringo::Backend *bck = nullptr;
    bool steps = false, scc = false;
    int step = 0;
    struct Tup { std::set<std::string> ids; std::map<std::string, std::multimap<long, std::string>> val; };
    std::map<std::string, Tup> tups;
    Gringo::Input::GroundTermParser gtp;
    Gringo::Logger log{[](Gringo::Warnings, char const *) {}, 20};

    template <class F> void call(F f) { if (direct) { f(*direct); } else { f(*bck); } }
    Vec lines() {
        Vec r;
        std::istringstream in(buf.str());
        buf.str("");
        std::string l;
        while (std::getline(in, l)) { if (!l.empty() && l[0] != '%') { r.push_back(l); } }
        return r;
    }
    void stm(json const &x) {
        std::string s = x["s"];
        std::vector<Atom_t> head;
        if (x.contains("head")) { head = x["head"].get<std::vector<Atom_t>>(); }
        std::vector<Lit_t> body;
        if (x.contains("body")) { body = x["body"].get<std::vector<Lit_t>>(); }
        std::vector<WeightLit_t> wb;
        if (x.contains("wb")) { for (auto const &w : x["wb"]) { wb.push_back(WeightLit_t{w[0].get<int>(), w[1].get<int>()}); } }
        std::vector<Id_t> ids;
        if (x.contains("ids")) { ids = x["ids"].get<std::vector<Id_t>>(); }
        auto ht = x.value("ch", false) ? Head_t::Choice : Head_t::Disjunctive;
        if (s == "rule") { call([&](auto &p) { p.rule(ht, toSpan(head), toSpan(body)); }); }
        else if (s == "wrule") { call([&](auto &p) { p.rule(ht, toSpan(head), x["bound"].get<int>(), toSpan(wb)); }); }
        else if (s == "minimize") { call([&](auto &p) { p.minimize(x["prio"].get<int>(), toSpan(wb)); }); }
        else if (s == "project") { call([&](auto &p) { p.project(toSpan(head)); }); }
        else if (s == "output") {
            std::string t = x["str"];
            if (direct) { direct->output(toSpan(t), toSpan(body)); }
            else {
                Gringo::Symbol sym = gtp.parse(t, log);
                if (body.empty()) { bck->output(sym, static_cast<Atom_t>(0)); }
                else if (body.size() == 1 && body[0] > 0) { bck->output(sym, static_cast<Atom_t>(body[0])); }
                else { bck->output(sym, toSpan(body)); }
            }
        }
        else if (s == "external") {
            static Value_t const w[] = {Value_t::Free, Value_t::True, Value_t::False, Value_t::Release};
            call([&](auto &p) { p.external(x["a"].get<Atom_t>(), w[x["v"].get<int>() - 1]); });
        }
        else if (s == "assume") { call([&](auto &p) { p.assume(toSpan(body)); }); }
        else if (s == "heuristic") {
            static Heuristic_t const v[] = {Heuristic_t::Level, Heuristic_t::Sign, Heuristic_t::Factor, Heuristic_t::Init, Heuristic_t::True, Heuristic_t::False};
            call([&](auto &p) { p.heuristic(x["a"].get<Atom_t>(), v[x["v"].get<int>() - 1], x["bias"].get<int>(), x["p"].get<unsigned>(), toSpan(body)); });
        }
        else if (s == "edge") { call([&](auto &p) { p.acycEdge(x["u"].get<int>(), x["w"].get<int>(), toSpan(body)); }); }
        else if (s == "tnum") { call([&](auto &p) { p.theoryTerm(x["id"].get<Id_t>(), x["n"].get<int>()); }); }
        else if (s == "tstr") { std::string t = x["str"]; call([&](auto &p) { p.theoryTerm(x["id"].get<Id_t>(), toSpan(t)); }); }
        else if (s == "tcomp") { call([&](auto &p) { p.theoryTerm(x["id"].get<Id_t>(), x["c"].get<int>(), toSpan(ids)); }); }
        else if (s == "telem") { call([&](auto &p) { p.theoryElement(x["id"].get<Id_t>(), toSpan(ids), toSpan(body)); }); }
        else if (s == "tatom") {
            if (x["guard"].get<bool>()) { call([&](auto &p) { p.theoryAtom(x["at"].get<Id_t>(), x["id"].get<Id_t>(), toSpan(ids), x["c"].get<Id_t>(), x["r"].get<Id_t>()); }); }
            else { call([&](auto &p) { p.theoryAtom(x["at"].get<Id_t>(), x["id"].get<Id_t>(), toSpan(ids)); }); }
        }
        else { throw std::runtime_error("unknown statement"); }
    }
    json num(std::string const &s) { size_t n; long v = std::stol(s, &n); if (n != s.size()) { throw std::runtime_error("not a number: " + s); } return v; }
    json read() {
        json r = json::object(), bad = json::array();
        if (steps) { tups.clear(); }
        std::vector<std::pair<std::string, Vec>> fs;
        std::set<std::string> seen;
        std::set<long> at;
        for (auto const &l : lines()) {
            auto f = fact(l);
            if (steps) { at.insert(num(f.second.back()).get<long>()); f.second.pop_back(); }
            fs.push_back(f);
        }
        auto is_tuple = [](std::string const &n) { return n.size() > 6 && n.substr(n.size() - 6) == "_tuple"; };
        // tuples: declared, then filled
        for (auto const &f : fs) {
            if (!is_tuple(f.first)) { continue; }
            auto &t = tups[f.first];
            auto const &a = f.second;
            if (a.size() == 1) {
                if (!t.ids.insert(a[0]).second) { bad.push_back("declared again: " + f.first + a[0]); }
                continue;
            }
            seen.insert(f.first + a[0]);
            size_t want = f.first == "weighted_literal_tuple" || f.first == "theory_tuple" ? 3 : 2;
            if (a.size() != want) { bad.push_back("arity of " + f.first); continue; }
            if (f.first == "theory_tuple") { t.val[a[0]].emplace(num(a[1]).get<long>(), a[2]); }
            else { t.val[a[0]].emplace(0, a.size() == 3 ? a[1] + " " + a[2] : a[1]); }
        }
        auto tup = [&](std::string const &n, std::string const &id) {
            auto &t = tups[n];
            json res = json::array();
            if (!t.ids.count(id)) { bad.push_back("not declared: " + n + id); }
            if (n == "theory_tuple") {
                long i = 0;
                for (auto const &x : t.val[id]) {
                    if (x.first != i++) { bad.push_back("positions of " + n + id); }
                    res.push_back(num(x.second));
                }
                return res;
            }
            std::set<std::string> once;
            std::map<long, int> per;
            for (auto const &x : t.val[id]) {
                if (!once.insert(x.second).second) { continue; } // facts are a set
                if (n == "weighted_literal_tuple") {
                    auto p = x.second.find(' ');
                    res.push_back({num(x.second.substr(0, p)), num(x.second.substr(p + 1))});
                }
                else { res.push_back(num(x.second)); }
            }
            return res;
        };
        std::set<std::string> done;
        json facts = json::array();
        std::map<std::string, std::set<long>> comps;
        for (auto const &f : fs) {
            auto const &n = f.first;
            auto const &a = f.second;
            if (is_tuple(n)) { continue; }
            json x = json::array();
            auto arity = [&](size_t k) { if (a.size() != k) { throw std::runtime_error("arity of " + n); } };
            if (n == "rule") {
                arity(2);
                auto h = fact(a[0] + "."), b = fact(a[1] + ".");
                if (b.first == "normal") { x = {"rule", h.first, tup("atom_tuple", h.second.at(0)), tup("literal_tuple", b.second.at(0))}; }
                else if (b.first == "sum") { x = {"wrule", h.first, tup("atom_tuple", h.second.at(0)), num(b.second.at(1)), tup("weighted_literal_tuple", b.second.at(0))}; }
            }
            else if (n == "minimize") { arity(2); x = {n, num(a[0]), tup("weighted_literal_tuple", a[1])}; }
            else if (n == "project") { arity(1); x = {n, num(a[0])}; }
            else if (n == "output") { arity(2); x = {n, a[0], tup("literal_tuple", a[1])}; }
            else if (n == "external") { arity(2); x = {n, num(a[0]), a[1]}; }
            else if (n == "assume") { arity(1); x = {n, num(a[0])}; }
            else if (n == "heuristic") { arity(5); x = {n, num(a[0]), a[1], num(a[2]), num(a[3]), tup("literal_tuple", a[4])}; }
            else if (n == "edge") { arity(3); x = {n, num(a[0]), num(a[1]), tup("literal_tuple", a[2])}; }
            else if (n == "theory_number") { arity(2); x = {"tnum", num(a[0]), num(a[1])}; }
            else if (n == "theory_string") { arity(2); x = {"tstr", num(a[0]), unquote(a[1])}; }
            else if (n == "theory_function") { arity(3); x = {"tfun", num(a[0]), num(a[1]), tup("theory_tuple", a[2])}; }
            else if (n == "theory_sequence") { arity(3); x = {"tseq", num(a[0]), a[1], tup("theory_tuple", a[2])}; }
            else if (n == "theory_element") { arity(3); x = {"telem", num(a[0]), tup("theory_tuple", a[1]), tup("literal_tuple", a[2])}; }
            else if (n == "theory_atom" && a.size() == 3) { x = {"tatom", num(a[0]), num(a[1]), tup("theory_element_tuple", a[2])}; }
            else if (n == "theory_atom") { arity(5); x = {"tguard", num(a[0]), num(a[1]), tup("theory_element_tuple", a[2]), num(a[3]), num(a[4])}; }
            else if (n == "scc") { arity(2); comps[a[0]].insert(num(a[1]).get<long>()); continue; }
            else { bad.push_back("unexpected: " + n); continue; }
            std::string key = n;
            for (auto const &y : a) { key += "\x01" + y; }
            if (done.insert(key).second) { facts.push_back(x); }
        }
        // equal tuples may still have two numbers, then statements about them look the same
        json uniq = json::array();
        std::set<std::string> dumped;
        for (auto const &x : facts) {
            json y = x;
            for (auto &z : y) { if (z.is_array() && x[0] != "tfun" && x[0] != "tseq" && !(x[0] == "telem" && &z == &y[2])) { std::sort(z.begin(), z.end()); } }
            if (dumped.insert(y.dump()).second) { uniq.push_back(x); }
        }
        json scc = json::array();
        for (auto const &c : comps) { scc.push_back(c.second); }
        json nums = json::object();
        for (auto n : {"atom_tuple", "literal_tuple", "weighted_literal_tuple", "theory_tuple", "theory_element_tuple"}) { nums[n] = tups[n].ids.size(); }
        json st = steps ? step : -1;
        for (auto i : at) { if (i != step) { st = i; } }
        ++step;
        return {{"facts", uniq}, {"scc", scc}, {"step", st}, {"nums", nums}, {"bad", bad}};
    }
};
} // namespace rf

OP(rf_new) {
    auto &x = d.get<rf::St>("rf");
    std::string route = s["route"];
    x.scc = s["scc"];
    x.steps = s["steps"];
    if (route == "direct") { x.direct = std::make_unique<Reify::Reifier>(x.os, x.scc, x.steps); }
    else if (route == "make") {
        x.made = Gringo::Output::make_backend(std::make_unique<std::ostream>(&x.buf), Gringo::Output::OutputFormat::REIFY, x.scc, x.steps);
        x.bck = x.made.get();
    }
    else {
        Gringo::Output::OutputOptions o;
        o.reifySCCs = x.scc;
        o.reifySteps = x.steps;
        x.base = std::make_unique<Gringo::Output::OutputBase>(x.td, Gringo::Output::OutputPredicates{}, x.os, Gringo::Output::OutputFormat::REIFY, o);
        x.bck = x.base->backend();
    }
    x.call([&](auto &p) { p.initProgram(s["inc"].get<bool>()); });
    auto l = x.lines();
    return {{"tag", l == rf::Vec{"tag(incremental)."} ? json(true) : l.empty() ? json(false) : json(l)}};
}
OP(rf_step) {
    auto &x = d.get<rf::St>("rf");
    x.call([&](auto &p) { p.beginStep(); });
    for (auto const &y : s["stms"]) { x.stm(y); }
    x.call([&](auto &p) { p.endStep(); });
    return x.read();
}
