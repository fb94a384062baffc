// Replays behaviours of the specifications through the C++ API: driver IN OUT
#include "cc_common.hh"

OP(new) {
    d.ctl.reset();
    d.aux.clear();
    std::vector<std::string> args = s["args"];
    d.threads = 1;
    for (auto &x : args) { if (x.substr(0, 2) == "-t") { d.threads = 2; } }
    std::vector<char const *> a;
    for (auto &x : args) { a.push_back(x.c_str()); }
    d.ctl.reset(new Control{a});
    return nullptr;
}
void add_ast(Driver &d, json const &s);
OP(add) {
    if (s.contains("form") && s["form"].get<std::string>().compare(0, 3, "ast") == 0) { add_ast(d, s); return nullptr; }
    std::vector<std::string> ps = s["params"];
    std::vector<char const *> a;
    for (auto &x : ps) { a.push_back(x.c_str()); }
    d.ctl->add(s["part"].get<std::string>().c_str(), a, s["text"].get<std::string>().c_str());
    return nullptr;
}
OP(ground) {
    std::vector<std::string> names;
    std::vector<SymbolVector> args;
    for (auto &p : s["parts"]) {
        names.push_back(p["name"]);
        args.emplace_back();
        for (auto &x : p["args"]) { args.back().push_back(psym(x)); }
    }
    std::vector<Part> parts;
    for (size_t i = 0; i < names.size(); ++i) { parts.emplace_back(names[i].c_str(), args[i]); }
    d.ctl->ground(parts);
    return nullptr;
}
OP(assign) {
    literal_t l; Symbol y;
    if (d.ref(s["a"], s["by"], l, y)) { d.ctl->assign_external(l, truth(s["v"])); }
    else { d.ctl->assign_external(y, truth(s["v"])); }
    return nullptr;
}
OP(release) {
    literal_t l; Symbol y;
    if (d.ref(s["a"], s["by"], l, y)) { d.ctl->release_external(l); }
    else { d.ctl->release_external(y); }
    return nullptr;
}
OP(cleanup) { d.ctl->cleanup(); return nullptr; }
OP(end) { return nullptr; }

static HeuristicType heu(std::string const &t) {
    return t == "level" ? HeuristicType::Level : t == "sign" ? HeuristicType::Sign : t == "factor" ? HeuristicType::Factor
         : t == "init" ? HeuristicType::Init : t == "true" ? HeuristicType::True : HeuristicType::False;
}
static ExternalType extt(std::string const &v) {
    return v == "t" ? ExternalType::True : v == "f" ? ExternalType::False : v == "r" ? ExternalType::Release : ExternalType::Free;
}

OP(backend) {
    auto run = [&](Backend &b) {
        auto at = [&](std::string a) -> literal_t {
            auto it = d.aux.find(a);
            if (it != d.aux.end()) { return it->second; }
            auto l = a[0] == '_' ? b.add_atom() : b.add_atom(psym(a));
            return d.aux[a] = l;
        };
        for (auto &st : s["stmts"]) {
            std::string k = st["k"];
            if (k == "rule") {
                auto &r = st["r"];
                std::vector<atom_t> head;
                for (auto &a : r["h"]) { head.push_back(at(a)); }
                bool ch = r["t"] == "choice";
                if (r["k"].get<int>() >= 0) { b.weight_rule(ch, head, r["k"].get<int>(), wlits(r["w"], at)); }
                else { b.rule(ch, head, blits(r["b"], at)); }
            }
            else if (k == "atom") { at(st["a"]); }
            else if (k == "minimize") { b.minimize(st["p"].get<int>(), wlits(st["w"], at)); }
            else if (k == "project") {
                std::vector<atom_t> as;
                for (auto &a : st["atoms"]) { as.push_back(at(a)); }
                b.project(as);
            }
            else if (k == "external") { b.external(at(st["a"]), extt(st["v"])); }
            else if (k == "assume") { b.assume(blits(st["b"], at)); }
            else if (k == "heuristic") { b.heuristic(at(st["a"]), heu(st["t"]), st["bias"].get<int>(), st["prio"].get<int>(), blits(st["b"], at)); }
            else if (k == "edge") { b.acyc_edge(st["u"].get<int>(), st["v"].get<int>(), blits(st["b"], at)); }
            else { throw std::invalid_argument("unknown statement " + k); }
        }
    };
    if (s["stmts"].size() % 2 == 0) {
        d.ctl->with_backend(run);
    } else {
        auto b = d.ctl->backend();
        run(b);
        b.close();
    }
    return nullptr;
}

namespace {
struct Handler : SolveEventHandler {
    json want, models = json::array();
    int finished = 0;
    SolveResult res;
    bool on_model(Model &m) override { models.push_back(model_obs(m, want)); return true; }
    void on_finish(SolveResult r) override { ++finished; res = r; }
};
}
OP(solve) {
    std::vector<SymbolicLiteral> sl;
    std::vector<literal_t> ll;
    std::string by = s.value("by", "sym");
    bool lits = false;
    json ass = s.value("ass", json::array());
    // one kind of literals per call: literals if any atom has to be given by literal
    for (auto &x : ass) { if (by == "lit" || x["a"].get<std::string>()[0] == '_') { lits = true; } }
    for (auto &x : ass) {
        literal_t l; Symbol y;
        std::string a = x["a"];
        if (lits && !d.ref(a, "lit", l, y)) { lits = false; break; }
    }
    for (auto &x : ass) {
        literal_t l; Symbol y;
        if (d.ref(x["a"], lits ? "lit" : "sym", l, y)) { ll.push_back(x["s"].get<bool>() ? l : -l); }
        else { sl.emplace_back(y, x["s"].get<bool>()); }
    }
    if (!lits && !ll.empty()) { lits = true; } // auxiliary atoms have no symbol; unknown atoms were false
    json want = s.value("want", json({"atoms"}));
    std::string mode = s.value("mode", "cb");
    if (!sl.empty() && !ll.empty()) {
        // mixed: express the unknown symbols as the solver would
        for (auto &x : sl) {
            literal_t l;
            if (d.has_lit(x.symbol().to_string(), l)) { ll.push_back(x.is_positive() ? l : -l); }
            else if (x.is_positive()) { ll.push_back(1); ll.push_back(-1); }
        }
        sl.clear();
    }
    auto solve = [&](SolveEventHandler *h, bool async, bool yield) {
        return lits ? d.ctl->solve(LiteralSpan{ll}, h, async, yield) : d.ctl->solve(SymbolicLiteralSpan{sl}, h, async, yield);
    };
    Handler h;
    h.want = want;
    json models = json::array();
    SolveResult r;
    if (mode == "cb" || mode == "ontrue") {
        auto sh = solve(&h, false, false);
        r = sh.get();
        models = h.models;
        if (h.finished != 1 || h.res != r) { throw std::logic_error("finish"); }
    } else if (mode == "yield") {
        auto sh = lits ? d.ctl->solve(LiteralSpan{ll}) : d.ctl->solve(SymbolicLiteralSpan{sl});
        for (auto &m : sh) { models.push_back(model_obs(m, want)); }
        r = sh.get();
    } else if (mode == "yieldloop") {
        auto sh = solve(nullptr, false, true);
        while (true) {
            sh.resume();
            auto &m = sh.model();
            if (!m) { break; }
            models.push_back(model_obs(m, want));
        }
        r = sh.get();
    } else if (mode == "async") {
        auto sh = solve(&h, true, false);
        while (!sh.wait(1.0)) { }
        r = sh.get();
        models = h.models;
        if (h.finished != 1 || h.res != r) { throw std::logic_error("finish"); }
    } else if (mode == "ayield") {
        auto sh = solve(nullptr, true, true);
        while (true) {
            sh.resume();
            sh.wait();
            auto &m = sh.model();
            if (!m) { break; }
            models.push_back(model_obs(m, want));
        }
        r = sh.get();
    } else if (mode == "yieldcb") {
        auto sh = solve(&h, false, true);
        for (auto &m : sh) { models.push_back(model_obs(m, want)); }
        r = sh.get();
        if (h.models != models) { throw std::logic_error("yieldcb"); }
    } else { throw std::invalid_argument("unknown mode " + mode); }
    json o = result(r);
    o["models"] = models;
    return o;
}

#include "cc_models.hh"
#include "cc_sym.hh"
#include "cc_atoms.hh"
#include "cc_backend.hh"
#include "cc_theory.hh"
#include "cc_api.hh"
#include "cc_raise.hh"
#include "cc_handle.hh"
#include "cc_conf.hh"
#include "cc_stat.hh"
#include "cc_ext.hh"
#include "cc_log.hh"
#include "cc_ast.hh"
#include "cc_prop.hh"
#include "cc_trail.hh"
#include "cc_app.hh"
#include "cc_own.hh"
#include "cc_intr.hh"

int main(int argc, char **argv) {
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    while (std::getline(in, line)) {
        json beh = json::parse(line);
        json obs = json::array();
        {
            Driver d;
            for (auto &st : beh["steps"]) {
                std::string op = st["op"];
                auto it = ops().find(op);
                if (it == ops().end()) { std::cerr << "unknown operation " << op << std::endl; return 1; }
                json o;
                try { o = it->second(d, st); }
                catch (std::bad_alloc const &) { o = {{"exc", "MemoryError"}, {"msg", "bad_alloc"}}; }
                catch (std::logic_error const &e) { o = {{"exc", "logic_error"}, {"msg", e.what()}}; }
                catch (std::exception const &e) { o = {{"exc", "RuntimeError"}, {"msg", e.what()}}; }
                obs.push_back(o);
            }
        }
        out << json{{"id", beh["id"]}, {"obs", obs}}.dump(-1, ' ', true, json::error_handler_t::replace) << "\n";
        out.flush();
    }
    return 0;
}
