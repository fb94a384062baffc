#pragma once
#include <deque>
#include <clingo.hh>
#include <fstream>
#include <iostream>
#include <list>
#include <unistd.h>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <nlohmann/json.hpp>
#include <set>
#include <sstream>

using json = nlohmann::json;
using namespace Clingo;

inline Symbol psym(std::string const &s) { return parse_term(s.c_str()); }

struct Driver;
using Op = std::function<json(Driver &, json const &)>;
inline std::map<std::string, Op> &ops() {
    static std::map<std::string, Op> m;
    return m;
}
struct Reg {
    Reg(char const *name, Op op) { ops()[name] = std::move(op); }
};
#define OP_CAT2(a, b) a##b
#define OP_CAT(a, b) OP_CAT2(a, b)
#define OP(name) \
    static json op_##name(Driver &d, json const &s); \
    static Reg reg_##name(#name, op_##name); \
    static json op_##name(Driver &d, json const &s)

struct State {
    virtual ~State() = default;
};

struct Driver {
    std::unique_ptr<Control> ctl;
    std::map<std::string, literal_t> aux;
    unsigned threads = 1;
    bool extended = false;
    std::map<std::string, std::shared_ptr<State>> st; // per-area state

    bool has_lit(std::string const &a, literal_t &l) {
        auto it = aux.find(a);
        if (it != aux.end()) { l = it->second; return true; }
        auto atoms = ctl->symbolic_atoms();
        auto at = atoms.find(psym(a));
        if (!at) { return false; }
        l = at->literal();
        return true;
    }
    // returns true if the reference is by literal
    bool ref(std::string const &a, std::string const &by, literal_t &l, Symbol &sym) {
        if (a[0] == '_' && aux.count(a)) { l = aux[a]; return true; }
        if (by == "lit" && has_lit(a, l)) { return true; }
        sym = psym(a);
        return false;
    }
};

inline json bag(SymbolVector const &v) {
    json r = json::array();
    for (auto &s : v) { r.push_back(s.to_string()); }
    return {{"bag", r}};
}

inline json result(SolveResult r) {
    json o;
    o["sat"] = r.is_satisfiable() ? json(true) : r.is_unsatisfiable() ? json(false) : json(nullptr);
    o["unsat"] = r.is_unsatisfiable() ? json(true) : r.is_satisfiable() ? json(false) : json(nullptr);
    o["unknown"] = r.is_unknown();
    o["exh"] = r.is_exhausted();
    o["int"] = r.is_interrupted();
    return o;
}

inline json model_obs(Model const &m, json const &want) {
    json r = json::object();
    for (auto &wj : want) {
        std::string w = wj;
        auto S = [&](clingo_show_type_bitset_t t) { r[w] = bag(m.symbols(t)); };
        if (w == "atoms") S(ShowType::Atoms);
        else if (w == "shown") r[w] = bag(m.symbols());
        else if (w == "terms") S(ShowType::Terms);
        else if (w == "theory") S(ShowType::Theory);
        else if (w == "catoms") S(ShowType::Atoms | ShowType::Complement);
        else if (w == "cterms") S(ShowType::Terms | ShowType::Complement);
        else if (w == "cshown") S(ShowType::Shown | ShowType::Complement);
        else if (w == "atomsterms") S(ShowType::Atoms | ShowType::Terms);
        else if (w == "shownterms") S(ShowType::Shown | ShowType::Terms);
        else if (w == "every") S(ShowType::Terms | ShowType::Atoms | ShowType::Theory);
        else if (w == "none") S(0);
        else if (w == "str") {
            std::ostringstream o; o << m;
            std::istringstream i(o.str());
            json b = json::array();
            std::string t;
            while (i >> t) { if (t.back() == ',') { t.pop_back(); } if (t != "{" && t != "}") { b.push_back(t); } }
            r[w] = {{"bag", b}};
        }
        else if (w == "cost") { r[w] = json::array(); for (auto c : m.cost()) { r[w].push_back(c); } }
        else if (w == "proven") r[w] = m.optimality_proven();
        else if (w == "type") r[w] = m.type() == ModelType::StableModel ? "stable" : m.type() == ModelType::BraveConsequences ? "brave" : "cautious";
        else if (w == "number") r[w] = m.number();
        else if (w == "thread") r[w] = m.thread_id();
    }
    return r;
}

inline std::vector<literal_t> blits(json const &b, std::function<literal_t(std::string)> f) {
    std::vector<literal_t> r;
    for (auto &x : b) {
        auto l = f(x["a"]);
        if (x["s"] == 3) { continue; }
        r.push_back(x["s"] == 1 ? -l : l);
    }
    return r;
}
inline std::vector<WeightedLiteral> wlits(json const &b, std::function<literal_t(std::string)> f) {
    std::vector<WeightedLiteral> r;
    for (auto &x : b) {
        auto l = f(x["a"]);
        if (x["s"] == 3) { continue; }
        r.emplace_back(x["s"] == 1 ? -l : l, x["w"].get<int>());
    }
    return r;
}
inline TruthValue truth(std::string const &v) {
    return v == "t" ? TruthValue::True : v == "f" ? TruthValue::False : TruthValue::Free;
}
