// The grounder of /repo (G03-G06): programs are added, grounded and solved in
// steps.  What is ground goes to the installed engine, statement by statement.
#pragma once
#include <algorithm>
#include <clingo.h>
#include <gringo/ground/dependency.hh>
#include <gringo/ground/instantiation.hh>
#include <gringo/ground/program.hh>
#include <gringo/input/groundtermparser.hh>
#include <gringo/input/nongroundparser.hh>
#include <gringo/input/program.hh>
#include <gringo/input/programbuilder.hh>
#include <gringo/logger.hh>
#include <gringo/output/backends.hh>
#include <gringo/output/output.hh>
#include <reify/program.hh>
#include "gringo_ast.hh"

namespace gr03 {
using namespace Gringo;

struct Eng {
    static void ok(bool x) { if (!x) { throw std::runtime_error(std::string("engine: ") + clingo_error_message()); } }
    clingo_control_t *ctl = nullptr;
    clingo_backend_t *bck = nullptr;
    std::map<Potassco::Atom_t, clingo_atom_t> atoms;
    struct Shown { std::string name; clingo_literal_t cond; };
    std::vector<Shown> shown;
    std::map<Potassco::Weight_t, std::vector<std::pair<clingo_literal_t, Potassco::Weight_t>>> min;
    std::vector<clingo_literal_t> assume;
    Eng() {
        char const *args[] = {"-Wnone"};
        ok(clingo_control_new(args, 1, [](clingo_warning_t, char const *, void *) {}, nullptr, 20, &ctl));
    }
    ~Eng() { clingo_control_free(ctl); }
    clingo_atom_t atom(Potassco::Atom_t a) {
        auto it = atoms.find(a);
        if (it != atoms.end()) { return it->second; }
        clingo_atom_t r;
        ok(clingo_backend_add_atom(bck, nullptr, &r));
        return atoms[a] = r;
    }
    clingo_literal_t lit(Potassco::Lit_t l) { return l < 0 ? -static_cast<clingo_literal_t>(atom(-l)) : static_cast<clingo_literal_t>(atom(l)); }
    // an atom that is true when a condition is (the engine does not know about atoms that occur in no rule)
    clingo_literal_t cond(Potassco::LitSpan s) {
        clingo_atom_t a;
        auto b = lits(s);
        ok(clingo_backend_add_atom(bck, nullptr, &a));
        ok(clingo_backend_rule(bck, false, &a, 1, b.data(), b.size()));
        return static_cast<clingo_literal_t>(a);
    }
    std::vector<clingo_literal_t> lits(Potassco::LitSpan s) { std::vector<clingo_literal_t> r; for (size_t i = 0; i < s.size; ++i) { r.push_back(lit(s[i])); } return r; }
    std::vector<clingo_atom_t> ats(Potassco::AtomSpan s) { std::vector<clingo_atom_t> r; for (size_t i = 0; i < s.size; ++i) { r.push_back(atom(s[i])); } return r; }
    std::vector<clingo_weighted_literal_t> wlits(Potassco::WeightLitSpan s) {
        std::vector<clingo_weighted_literal_t> r;
        for (size_t i = 0; i < s.size; ++i) { r.push_back({lit(s[i].lit), s[i].weight}); }
        return r;
    }
};

struct EngBackend : NullBackend {
    Eng &e;
    std::ostringstream log;
    explicit EngBackend(Eng &e) : e(e) {}
    void rule(Head_t ht, AtomSpan const &head, LitSpan const &body) override {
        auto h = e.ats(head);
        auto b = e.lits(body);
        Eng::ok(clingo_backend_rule(e.bck, ht == Head_t::Choice, h.data(), h.size(), b.data(), b.size()));
    }
    void rule(Head_t ht, AtomSpan const &head, Weight_t bound, WeightLitSpan const &body) override {
        auto h = e.ats(head);
        auto b = e.wlits(body);
        Eng::ok(clingo_backend_weight_rule(e.bck, ht == Head_t::Choice, h.data(), h.size(), bound, b.data(), b.size()));
    }
    void minimize(Weight_t prio, WeightLitSpan const &lits) override {
        for (size_t i = 0; i < lits.size; ++i) { e.min[prio].emplace_back(e.cond(Potassco::toSpan(&lits[i].lit, 1)), lits[i].weight); }
    }
    void project(AtomSpan const &atoms) override {
        auto a = e.ats(atoms);
        Eng::ok(clingo_backend_project(e.bck, a.data(), a.size()));
    }
    void output(Symbol sym, Atom_t atom) override {
        std::ostringstream o;
        o << sym;
        Potassco::Lit_t l = static_cast<Potassco::Lit_t>(atom);
        e.shown.push_back({o.str(), e.cond(Potassco::toSpan(&l, atom != 0 ? 1 : 0))});
    }
    void output(Symbol sym, LitSpan const &c) override {
        std::ostringstream o;
        o << sym;
        e.shown.push_back({o.str(), e.cond(c)});
    }
    void external(Atom_t a, Value_t v) override {
        static clingo_external_type_t const m[] = {clingo_external_type_free, clingo_external_type_true, clingo_external_type_false, clingo_external_type_release};
        Eng::ok(clingo_backend_external(e.bck, e.atom(a), m[static_cast<int>(v.v)]));
    }
    void assume(LitSpan const &lits) override { e.assume = e.lits(lits); }
    void acycEdge(int s, int t, LitSpan const &c) override {
        auto b = e.lits(c);
        Eng::ok(clingo_backend_acyc_edge(e.bck, s, t, b.data(), b.size()));
    }
};

struct Ctx : Context {
    bool callable(String n) override { return std::strcmp(n.c_str(), "f") == 0 || std::strcmp(n.c_str(), "up") == 0 || std::strcmp(n.c_str(), "none") == 0 || std::strcmp(n.c_str(), "bad") == 0; }
    SymVec call(Location const &, String n, SymSpan args, Logger &) override {
        SymVec r;
        if (std::strcmp(n.c_str(), "bad") == 0) { throw std::runtime_error("bad"); }
        if (std::strcmp(n.c_str(), "none") == 0) { return r; }
        for (size_t i = 0; i < args.size; ++i) {
            if (args[i].type() != SymbolType::Num) { r.push_back(args[i]); }
            else if (std::strcmp(n.c_str(), "f") == 0) { r.push_back(Symbol::createNum(args[i].num() + 1)); }
            else { for (int k = 0; k < args[i].num() && k < 4; ++k) { r.push_back(Symbol::createNum(k)); } }
        }
        return r;
    }
    void exec(String, Location, String) override {}
};

struct St {
    std::vector<std::pair<Warnings, std::string>> msgs;
    Logger log{[this](Warnings w, char const *m) { msgs.emplace_back(w, m); }, 1000};
    std::unique_ptr<Eng> eng;
    Potassco::TheoryData td;
    std::ostringstream text;
    std::unique_ptr<Output::OutputBase> out;
    Input::Program prg;
    Defines defs;
    Ctx ctx;
    NullBackend nul;
    bool inc = false;
    std::unique_ptr<Input::NongroundProgramBuilder> pb;
    std::unique_ptr<Input::NonGroundParser> parser;
    bool parsed = false, grounded = false, initialized = false;
    std::string route = "plain";
    void start(std::string const &kind) {
        if (kind == "solve") {
            eng = std::make_unique<Eng>();
            out = std::make_unique<Output::OutputBase>(td, Output::OutputPredicates{}, std::make_unique<EngBackend>(*eng));
        }
        else {
            out = std::make_unique<Output::OutputBase>(td, Output::OutputPredicates{}, text, kind == "text" ? Output::OutputFormat::TEXT : Output::OutputFormat::INTERMEDIATE);
        }
        pb = std::make_unique<Input::NongroundProgramBuilder>(ctx, prg, out->outPreds, defs);
        parser = std::make_unique<Input::NonGroundParser>(*pb, nul, inc);
    }
    void update() {
        if (!grounded) {
            if (eng) { Eng::ok(clingo_control_backend(eng->ctl, &eng->bck)); Eng::ok(clingo_backend_begin(eng->bck)); }
            if (!initialized) { initialized = true; out->init(true); }
            out->beginStep();
            grounded = true;
        }
    }
    void err() { if (log.hasError()) { throw std::runtime_error("rejected"); } }
    void add(std::string const &name, std::vector<std::string> const &ps, std::string const &txt) {
        Location loc("<block>", 1, 1, "<block>", 1, 1);
        Input::IdVec ids;
        for (auto const &p : ps) { ids.emplace_back(loc, p.c_str()); }
        if (route != "plain") { gr07::add(*pb, route, name, ps, txt, log); }
        else {
            parser->pushBlock(name, std::move(ids), txt, log);
            parser->parse(log);
        }
        defs.init(log);
        parsed = true;
        err();
    }
    void prepare() {
        if (parsed) {
            prg.rewrite(defs, log);
            prg.check(log);
            parsed = false;
            err();
        }
    }
    void ground(std::vector<std::pair<std::string, SymVec>> const &parts) {
        update();
        prepare();
        Ground::Parameters params;
        std::set<Sig> sigs;
        for (auto const &x : parts) {
            params.add(x.first.c_str(), SymVec(x.second));
            sigs.emplace(x.first.c_str(), static_cast<uint32_t>(x.second.size()), false);
        }
        Ground::Program g(prg.toGround(sigs, out->data, log));
        g.prepare(params, *out, log);
        g.ground(ctx, *out, log);
    }
    // all models: shown symbols, costs
    json solve() {
        update();
        grounded = false;
        out->endStep({});
        out->reset(true);
        if (!eng) { std::string t = text.str(); text.str(""); return t; }
        Eng::ok(clingo_backend_end(eng->bck));
        eng->bck = nullptr;
        clingo_configuration_t *conf;
        clingo_id_t root, key;
        Eng::ok(clingo_control_configuration(eng->ctl, &conf));
        Eng::ok(clingo_configuration_root(conf, &root));
        Eng::ok(clingo_configuration_map_at(conf, root, "solve.models", &key));
        Eng::ok(clingo_configuration_value_set(conf, key, "0"));
        json models = json::array();
        clingo_solve_handle_t *h;
        Eng::ok(clingo_control_solve(eng->ctl, clingo_solve_mode_yield, eng->assume.data(), eng->assume.size(), nullptr, nullptr, &h));
        for (;;) {
            clingo_model_t const *m;
            Eng::ok(clingo_solve_handle_resume(h));
            Eng::ok(clingo_solve_handle_model(h, &m));
            if (m == nullptr) { break; }
            std::set<std::string> s;
            auto is_true = [&](clingo_literal_t l) {
                bool t;
                Eng::ok(clingo_model_is_true(m, l, &t));
                return t;
            };
            for (auto const &x : eng->shown) {
                if (is_true(x.cond)) { s.insert(x.name); }
            }
            // what a priority without cost says is not observed
            json c = json::array();
            for (auto it = eng->min.rbegin(); it != eng->min.rend(); ++it) {
                int64_t v = 0;
                for (auto const &x : it->second) { if (is_true(x.first)) { v += x.second; } }
                if (v != 0) { c.push_back({{"prio", it->first}, {"cost", v}}); }
            }
            models.push_back({{"shown", s}, {"cost", c}});
        }
        Eng::ok(clingo_solve_handle_close(h));
        return models;
    }
    json messages() {
        json r = json::array();
        for (auto const &m : msgs) { r.push_back({{"code", static_cast<int>(m.first)}, {"text", m.second}}); }
        msgs.clear();
        return r;
    }
};
} // namespace gr03

OP(g_new) {
    d.st["gr03"] = nullptr;
    d.get<gr03::St>("gr03").route = s.value("route", "plain");
    d.get<gr03::St>("gr03").start(s.value("kind", "solve"));
    return "ok";
}
// adds and grounds a list of parts, then solves; what is observed are the models or the rejection
OP(g_add) {
    auto &x = d.get<gr03::St>("gr03");
    try { x.add(s["part"], s["params"].get<std::vector<std::string>>(), s["text"]); }
    catch (std::runtime_error const &) { return {{"rejected", true}, {"msgs", x.messages()}}; }
    return "ok";
}
OP(g_ground) {
    auto &x = d.get<gr03::St>("gr03");
    std::vector<std::pair<std::string, Gringo::SymVec>> parts;
    for (auto const &p : s["parts"]) {
        parts.emplace_back(p["name"], Gringo::SymVec{});
        for (auto const &v : p["args"]) { parts.back().second.push_back(Gringo::Symbol::createNum(v.get<int>())); }
    }
    try { x.ground(parts); }
    catch (std::runtime_error const &e) { return {{"rejected", true}, {"why", e.what()}, {"msgs", x.messages()}}; }
    return "ok";
}
OP(g_solve) { auto &x = d.get<gr03::St>("gr03"); return x.solve(); }
OP(g_msgs) { auto &x = d.get<gr03::St>("gr03"); return x.messages(); }
// a program of facts after grounding: its facts and whether something was undefined (G04)
OP(te_prog) {
    gr03::St x;
    x.start("text");
    json msgs = json::array();
    try {
        x.add("base", {}, s["text"]);
        x.ground({{"base", {}}});
    }
    catch (std::runtime_error const &e) { return {{"rejected", e.what()}, {"msgs", x.messages()}}; }
    std::istringstream in(x.solve().get<std::string>());
    std::set<std::string> facts;
    std::string l;
    while (std::getline(in, l)) {
        if (l.empty()) { continue; }
        if (l.back() == '.') { l.pop_back(); }
        if (l.substr(0, 1) != "v" || l.substr(0, 2) == "v(") { facts.insert(l); }
    }
    bool undef = false;
    for (auto const &m : x.msgs) {
        if (m.first == Gringo::Warnings::OperationUndefined) { undef = true; }
        else { msgs.push_back(m.second); }
    }
    json r = {{"facts", facts}, {"undef", undef}};
    if (!msgs.empty()) { r["msgs"] = msgs; }
    return r;
}
OP(te_term) {
    Gringo::Logger log{[](Gringo::Warnings, char const *) {}, 20};
    Gringo::Input::GroundTermParser p;
    Gringo::Symbol r = p.parse(s["text"], log);
    if (r.type() == Gringo::SymbolType::Special) { return {{"undef", true}}; }
    std::ostringstream o;
    o << r;
    return {{"val", o.str()}};
}
// the variables reported to be unsafe in a program (G05)
OP(sf_prog) {
    gr03::St x;
    x.route = s.value("route", "plain");
    x.start("text");
    bool rejected = false;
    try {
        x.add("base", {}, s["text"]);
        x.ground({{"base", {}}});
    }
    catch (std::runtime_error const &) { rejected = true; }
    std::set<std::string> unsafe;
    json other = json::array();
    for (auto const &m : x.msgs) {
        if (m.second.find("unsafe variables in") == std::string::npos) {
            if (m.first == Gringo::Warnings::RuntimeError) { other.push_back(m.second); }
            continue;
        }
        std::string const &t = m.second;
        for (size_t p = t.find("note: '"); p != std::string::npos; p = t.find("note: '", p + 1)) {
            auto b = p + 7;
            auto v = t.substr(b, t.find('\'', b) - b);
            if (v.substr(0, 1) != "#") { unsafe.insert(v); }
        }
    }
    json r = {{"unsafe", unsafe}};
    if (!other.empty()) { r["other"] = other; }
    if (rejected != !unsafe.empty()) { r["unsafe"] = rejected ? json("rejected") : json("accepted"); }
    return r;
}
