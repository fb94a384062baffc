// Callbacks that raise (C06).
#pragma once

namespace rs {
struct E1 : std::exception {
    std::string m;
    explicit E1(std::string m) : m{std::move(m)} {}
    char const *what() const noexcept override { return m.c_str(); }
};
static void silent(WarningCode, char const *) {}
struct Armed {
    std::string arm;
    json s;
    std::mutex mut;
    void set(json const &x) {
        std::lock_guard<std::mutex> g{mut};
        s = x;
        arm = x.value("arm", "");
    }
    void hit(char const *name) {
        json x;
        {
            std::lock_guard<std::mutex> g{mut};
            if (arm != name) { return; }
            arm = "";
            x = s;
        }
        raise(x);
    }
    static void raise(json const &x) {
        std::string k = x["kind"], m = x["msg"];
        if (k == "nested") {
            try { parse_term("f(", silent); }
            catch (std::runtime_error const &) {
                if (!x.value("swallow", false)) { throw; }
            }
            return;
        }
        if (k == "E1") { throw E1(m); }
        if (k == "runtime_error") { throw std::runtime_error(m); }
        if (k == "logic_error") { throw std::logic_error(m); }
        if (k == "out_of_range") { throw std::out_of_range(m); }
        if (k == "bad_alloc") { throw std::bad_alloc(); }
        if (k == "int") { throw 42; }
        throw std::invalid_argument("unknown kind");
    }
};
// the exception in the words of the specification
template <class F>
static json guard(F &&f) {
    auto r = [](char const *k, char const *m) { return json{{"exc", k}, {"msg", m}}; };
    try { f(); return "ok"; }
    catch (E1 const &e) { return r("E1", e.what()); }
    catch (std::out_of_range const &e) { return r("out_of_range", e.what()); }
    catch (std::logic_error const &e) { return typeid(e) == typeid(std::logic_error) ? r("logic_error", e.what()) : r(typeid(e).name(), e.what()); }
    catch (std::runtime_error const &e) { return typeid(e) == typeid(std::runtime_error) ? r("runtime_error", e.what()) : r(typeid(e).name(), e.what()); }
    catch (std::bad_alloc const &) { return r("bad_alloc", ""); }
    catch (std::exception const &e) { return r(typeid(e).name(), e.what()); }
    catch (int i) { return r(i == 42 ? "int" : "other int", ""); }
    catch (...) { return r("unknown", ""); }
}
struct Obs : GroundProgramObserver {
    Armed *a;
    void begin_step() override { a->hit("begin_step"); }
    void end_step() override { a->hit("end_step"); }
    void rule(bool, AtomSpan, LiteralSpan) override { a->hit("rule"); }
    void output_atom(Symbol, atom_t) override { a->hit("output_atom"); }
    void external(atom_t, ExternalType) override { a->hit("external"); }
    void minimize(weight_t, WeightedLiteralSpan) override { a->hit("minimize"); }
    void weight_rule(bool, AtomSpan, weight_t, WeightedLiteralSpan) override { a->hit("weight_rule"); }
    void project(AtomSpan) override { a->hit("project"); }
    void assume(LiteralSpan) override { a->hit("assume"); }
    void heuristic(atom_t, HeuristicType, int, unsigned, LiteralSpan) override { a->hit("heuristic"); }
    void acyc_edge(int, int, LiteralSpan) override { a->hit("acyc_edge"); }
};
struct Prop : Heuristic {
    Armed *a;
    void init(PropagateInit &i) override {
        for (auto x : i.symbolic_atoms()) {
            i.add_watch(i.solver_literal(x.literal()));
            i.add_watch(-i.solver_literal(x.literal()));
        }
        a->hit("init");
    }
    void propagate(PropagateControl &, LiteralSpan) override { a->hit("propagate"); }
    void check(PropagateControl &) override { a->hit("check"); }
    literal_t decide(id_t, Assignment const &, literal_t f) override { a->hit("decide"); return f; }
};
struct Handler : SolveEventHandler {
    Armed *a;
    bool on_model(Model &) override { a->hit("on_model"); return true; }
};
struct St : State {
    Armed armed;
    Obs obs;
    Prop prop;
    Handler h;
    std::unique_ptr<Control> ctl;
};
static St &get(Driver &d) { return static_cast<St &>(*d.st["raise"]); }
template <class F>
static json armed(Driver &d, json const &s, F &&f) {
    auto &x = get(d);
    x.armed.set(s);
    auto r = guard([&] { f(x); });
    x.armed.set(json::object());
    return r;
}
} // namespace rs

OP(r_new) {
    auto p = std::make_shared<rs::St>();
    d.st["raise"] = p;
    p->obs.a = p->prop.a = p->h.a = &p->armed;
    char const *args[] = {"0"};
    p->ctl.reset(new Control{StringSpan{args, 1}, rs::silent});
    p->ctl->register_observer(p->obs);
    p->ctl->register_propagator(p->prop);
    p->ctl->add("base", {}, "{a;b}. c:-a. #external e. d(@f(1)).");
    p->ctl->add("q", {"t"}, "{x(@f(t));y(t)}.");
    return nullptr;
}
OP(r_ground) {
    return rs::armed(d, s, [&](rs::St &x) {
        std::string part = s["part"];
        SymbolVector args;
        if (part != "base") { args.push_back(Number(s["i"].get<int>())); }
        x.ctl->ground({{part.c_str(), args}}, [&](Location, char const *, SymbolSpan args, SymbolSpanCallback cb) {
            x.armed.hit("f");
            cb({args.begin(), args.size()});
        });
    });
}
OP(r_backend) {
    return rs::armed(d, s, [&](rs::St &x) {
        x.ctl->with_backend([&](Backend &b) {
            auto u = b.add_atom(), v = b.add_atom();
            b.rule(false, {u}, {literal_t(v)});
            b.external(v, ExternalType::False);
            b.minimize(0, {{literal_t(u), 0}});
        });
    });
}
OP(r_bseq) {
    json r = json::array();
    auto &x = rs::get(d);
    x.ctl->with_backend([&](Backend &b) {
        auto u = b.add_atom(), v = b.add_atom();
        for (auto &i : s["items"]) {
            json a = json::object();
            std::string f = i["f"];
            if (i["on"].get<bool>()) {
                a = i;
                a["arm"] = f;
            }
            x.armed.set(a);
            json o = rs::guard([&] {
                if (f == "rule") { b.rule(false, {u}, {literal_t(v)}); }
                else if (f == "external") { b.external(v, ExternalType::False); }
                else if (f == "minimize") { b.minimize(0, {{literal_t(u), 0}}); }
                else if (f == "weight_rule") { b.weight_rule(false, {u}, 1, {{literal_t(v), 1}}); }
                else if (f == "project") { b.project({u}); }
                else if (f == "assume") { b.assume({-literal_t(u)}); }
                else if (f == "heuristic") { b.heuristic(u, HeuristicType::Sign, 1, 1, {literal_t(v)}); }
                else { b.acyc_edge(1, 2, {literal_t(u)}); }
            });
            x.armed.set(json::object());
            if (o.is_string()) { o = json{{"exc", "ok"}, {"msg", ""}}; }
            r.push_back(o);
        }
    });
    return r;
}
OP(r_external) {
    return rs::armed(d, s, [&](rs::St &x) {
        x.ctl->assign_external(Id("e"), s["v"].get<bool>() ? TruthValue::True : TruthValue::False);
    });
}
OP(r_solve) {
    return rs::armed(d, s, [&](rs::St &x) {
        std::string md = s["mode"];
        bool in = s["catch"] == "in";
        std::exception_ptr err;
        {
            auto h = x.ctl->solve(LiteralSpan{}, &x.h, md == "async" || md == "ayield", md == "yield" || md == "ayield");
            auto use = [&] {
                if (md == "yield") { for (auto &m : h) { static_cast<void>(m); } }
                else if (md == "ayield") {
                    while (true) {
                        h.resume();
                        h.wait();
                        if (!h.model()) { break; }
                    }
                }
                if (!h.get().is_satisfiable()) { throw std::invalid_argument("result"); }
            };
            if (in) {
                try { use(); }
                catch (...) { err = std::current_exception(); }
            }
            else { use(); }
        }
        if (err) { std::rethrow_exception(err); }
    });
}
OP(r_parse) {
    return rs::armed(d, s, [&](rs::St &x) {
        int n = 0, i = s["i"];
        AST::parse_string("a. b(X) :- c(X). d :- e.", [&](AST::Node const &) { if (n++ == i) { x.armed.hit("statement"); } });
        if (n != 4) { throw std::invalid_argument("statements"); }
    });
}
OP(r_bad) {
    return rs::guard([&] {
        std::string w = s["what"];
        if (w == "add") { Control(StringSpan{}, rs::silent).add("base", {}, "a :- "); }
        else if (w == "parse") { parse_term("f(,", rs::silent); }
        else if (w == "load") { Control(StringSpan{}, rs::silent).load("/does/not/exist.lp"); }
        else { Control({"--no-such-option"}, rs::silent); }
    });
}
