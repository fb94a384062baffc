// Ownership of engine objects (C21).
namespace own {
struct Err : std::runtime_error { using std::runtime_error::runtime_error; };
struct Slot {
    std::string k;
    std::unique_ptr<Control> c;
    std::unique_ptr<SolveHandle> h;
    std::unique_ptr<Backend> b;
    std::unique_ptr<AST::ProgramBuilder> p;
    std::unique_ptr<AST::Node> n;
    std::unique_ptr<AST::NodeVector> v;
    std::unique_ptr<AST::StringVector> w;
};
template <class T> void move_to(std::unique_ptr<T> &a, std::unique_ptr<T> &b) {
    if (!a) { return; }
    if (b) { *b = std::move(*a); }
    else { b.reset(new T(std::move(*a))); }
}
struct St : State {
    std::map<int, Slot> sl;
    int n = 0;
    void drop(int i) { sl.erase(i); }
    ~St() override {
        for (auto &x : sl) { x.second.h.reset(); x.second.b.reset(); x.second.p.reset(); x.second.n.reset(); x.second.v.reset(); x.second.w.reset(); }
        sl.clear();
    }
};
static void reset(bool on) { Shim::get<void (*)(int)>("vf_own_reset")(on); }
static json counts() { return json::parse(Shim::get<char const *(*)()>("vf_own")()); }
static void fault(char const *f) { Shim::script({{"f", f}, {"fault", {{"code", 1}, {"msg", "injected"}}}}); }
static void quiet(WarningCode, char const *) {}
static AST::Node stmt(int i) {
    std::vector<AST::Node> r;
    AST::parse_string(("x" + std::to_string(i) + ".").c_str(), [&](AST::Node const &n) { r.push_back(n); });
    return r.at(1);
}
static AST::Attribute attr(AST::Node const &n, std::string const &w) {
    return w == "opt" ? AST::Attribute::Guard : n.type() == AST::Type::TheoryAtom ? AST::Attribute::Term : AST::Attribute::Argument;
}
static AST::NodeVector seq(Slot &s) { return s.v ? *s.v : s.n->get<AST::NodeVector>(AST::Attribute::Arguments); }
struct Raise : SolveEventHandler {
    bool on_model(Model &) override { throw Err("model"); }
};
static void use(Slot &o, int &n) {
    if (o.c) { o.c->symbolic_atoms().length(); }
    else if (o.h) { o.h->resume(); o.h->wait(); o.h->model(); }
    else if (o.b) { o.b->add_atom(Function("z", {})); std::vector<atom_t> a{o.b->add_atom()}; o.b->rule(false, a, {}); }
    else if (o.p) { o.p->add(stmt(++n)); }
    else if (o.n) { o.n->to_string(); }
    else if (o.w) {
        o.w->push_back("<=");
        o.w->pop_back();
        auto const &q = *o.w;
        if (q.size() != 2 || std::strcmp(q[0], "=") || std::strcmp(q[1], "<") || std::strcmp(*(q.end() - 1), "<")) { throw std::out_of_range("operators"); }
    }
    else if (o.v) { for (auto &&x : const_cast<AST::NodeVector const &>(*o.v)) { x.to_string(); } }
}
static Backend pass(Backend b) { return b; }
static void run(St &x, std::string const &op, json const &s) {
    auto &sl = x.sl;
    auto at = [&](char const *k) -> Slot & { return sl.at(s[k].get<int>()); };
    auto to = [&]() -> Slot & { return sl[s["to"].get<int>()]; };
    bool flt = s.value("fault", json(false)).is_boolean() && s.value("fault", json(false)) == true;
    if (op == "ow_ctl") {
        char const *args[] = {"0"};
        auto c = Control{StringSpan{args, 1}, quiet};
        c.add("base", {}, "a(1). {b(1..2)}. #external e.");
        c.ground({{"base", {}}});
        sl[s["s"].get<int>()].c.reset(new Control(std::move(c)));
    }
    else if (op == "ow_bad") { char const *args[] = {"--no-such-option"}; Control c{StringSpan{args, 1}, quiet}; }
    else if (op == "ow_borrow") { auto *p = at("s").c->to_c(); to().c.reset(new Control(p, false)); }
    else if (op == "ow_open") {
        std::string k = s["k"];
        auto &c = *at("s").c;
        auto &t = to();
        if (k == "handle" || k == "async") { t.h.reset(new SolveHandle(c.solve(LiteralSpan{}, nullptr, k == "async", true))); }
        else if (k == "backend") { t.b.reset(new Backend(c.backend())); }
        else { t.p.reset(new AST::ProgramBuilder(c)); }
    }
    else if (op == "ow_use") { use(at("s"), x.n); }
    else if (op == "ow_close") {
        auto &o = at("s");
        if (flt) { fault(o.h ? "solve_handle_close" : o.b ? "backend_end" : "program_builder_end"); }
        if (o.h) { o.h->close(); }
        else if (o.b) { o.b->close(); }
        else { o.p->close(); }
    }
    else if (op == "ow_scope") {
        auto &c = *at("s").c;
        std::string k = s["k"], how = s["how"];
        if (k == "handle" || k == "async") {
            SolveHandle h = c.solve(LiteralSpan{}, nullptr, k == "async", true);
            if (how == "raise") { throw Err("scope"); }
            if (how == "move") { SolveHandle g; g = std::move(h); SolveHandle f{std::move(g)}; f.model(); }
            else if (how == "close") { h.get(); h.close(); }
            else { for (auto &m : h) { m.number(); } }
        }
        else if (k == "backend") {
            if (how == "normal") { c.with_backend([](Backend &b) { b.add_atom(); }); return; }
            Backend b = c.backend();
            if (how == "raise") { throw Err("scope"); }
            if (how == "move") { Backend d = pass(std::move(b)); d.add_atom(); Backend e{std::move(d)}; e.add_atom(); }
            else { b.close(); }
        }
        else {
            if (how == "normal") { AST::with_builder(c, [](AST::ProgramBuilder &b) { b.add(stmt(0)); }); return; }
            AST::ProgramBuilder b{c};
            if (how == "raise") { throw Err("scope"); }
            if (how == "move") { AST::ProgramBuilder d{std::move(b)}; d.add(stmt(0)); b = std::move(d); b.add(stmt(0)); }
            else { b.close(); }
        }
    }
    else if (op == "ow_solve") {
        auto &c = *at("s").c;
        std::string how = s["how"];
        Raise r;
        if (how == "plain") { c.solve(LiteralSpan{}, nullptr, false, false).get(); }
        else if (how == "raise") { c.solve(LiteralSpan{}, &r, false, false).get(); }
        else if (how == "get") { fault("solve_handle_get"); c.solve(LiteralSpan{}, nullptr, false, false).get(); }
        else if (how == "resume") { auto h = c.solve(); h.resume(); }
        else if (how == "break") { auto h = c.solve(); for (auto &m : h) { m.number(); break; } }
        else if (how == "yraise") { auto h = c.solve(); for (auto &m : h) { m.number(); throw Err("loop"); } }
        else if (how == "async") { auto h = c.solve(LiteralSpan{}, nullptr, true, false); h.cancel(); }
        else { auto h = c.solve(LiteralSpan{}, &r, true, false); h.get(); }
    }
    else if (op == "ow_fault") {
        std::string f = s["f"];
        fault(f.c_str());
        if (f == "control_new") { Control c{StringSpan{}, quiet}; return; }
        auto &c = *at("s").c;
        if (f == "control_solve") { c.solve(); }
        else if (f == "control_backend" || f == "backend_begin") { c.backend(); }
        else { AST::ProgramBuilder b{c}; }
    }
    else if (op == "ow_alias") {
        auto &a = *at("s").n;
        auto &t = to();
        if (t.n) { *t.n = a; }
        else { t.n.reset(new AST::Node(a)); }
    }
    else if (op == "ow_move") {
        auto &a = at("s");
        auto &t = to();
        move_to(a.c, t.c); move_to(a.h, t.h); move_to(a.b, t.b); move_to(a.p, t.p); move_to(a.n, t.n);
    }
    else if (op == "ow_swap") {
        auto &a = at("s");
        auto &b = to();
        if (a.c) { std::swap(*a.c, *b.c); }
        else if (a.h) { std::swap(*a.h, *b.h); }
        else if (a.b) { std::swap(*a.b, *b.b); }
        else if (a.p) { std::swap(*a.p, *b.p); }
        else if (a.n) { std::swap(*a.n, *b.n); }
        else if (a.v) { std::swap(a.v, b.v); }
        else { std::swap(a.w, b.w); }
    }
    else if (op == "ow_self") { auto &n = *at("s").n; auto const &m = n; n = m; n.to_string(); }
    else if (op == "ow_drop") { x.drop(s["s"]); }
    else if (op == "ow_build") {
        std::vector<AST::Node> q;
        for (int i : s["q"]) { q.push_back(*sl.at(i).n); }
        std::string t = s["t"];
        auto L = ast_loc();
        if (flt) { fault("ast_build"); }
        auto mk = [&]() -> AST::Node {
            if (t == "leaf") { return {AST::Type::SymbolicTerm, L, Number(++x.n)}; }
            if (t == "fun") { return {AST::Type::Function, L, "f", q, 0}; }
            if (t == "thg") { return {AST::Type::TheoryGuardDefinition, std::vector<char const *>{"=", "<"}, "k"}; }
            auto &a = *sl.at(s["c"][0].get<int>()).n;
            if (t == "un") { return {AST::Type::UnaryOperation, L, static_cast<int>(AST::UnaryOperator::Minus), a}; }
            int o = s["o"];
            return {AST::Type::TheoryAtom, L, a, std::vector<AST::Node>{}, o ? Optional<AST::Node>{*sl.at(o).n} : Optional<AST::Node>{}};
        };
        auto r = mk();
        to().n.reset(new AST::Node(std::move(r)));
    }
    else if (op == "ow_child") {
        auto &o = at("s");
        std::string w = s["w"];
        int i = s["i"].get<int>() - 1;
        auto r = w == "seq" ? AST::Node(seq(o)[i]) : w == "opt" ? *o.n->get<Optional<AST::Node>>(AST::Attribute::Guard) : o.n->get<AST::Node>(attr(*o.n, w));
        auto &t = to();
        if (t.n) { if (i % 2) { *t.n = r; } else { *t.n = std::move(r); } }
        else { t.n.reset(new AST::Node(r)); }
    }
    else if (op == "ow_set") {
        auto &o = at("s");
        auto &v = *at("v").n;
        std::string w = s["w"];
        if (w == "seq") {
            auto q = seq(o);
            int i = s["i"].get<int>() - 1;
            if (x.n++ % 2) { q[i] = v; } else { q.set(q.begin() + i, v); }
            return;
        }
        if (flt) { fault(w == "arg" ? "ast_attribute_set_ast" : "ast_attribute_set_optional_ast"); }
        if (w == "opt") { o.n->set(AST::Attribute::Guard, Optional<AST::Node>{v}); }
        else { o.n->set(attr(*o.n, w), v); }
    }
    else if (op == "ow_unset") { at("s").n->set(AST::Attribute::Guard, Optional<AST::Node>{}); }
    else if (op == "ow_seq") {
        auto &o = at("s");
        if (o.n->type() == AST::Type::TheoryGuardDefinition) {
            auto r = o.n->get<AST::StringVector>(AST::Attribute::Operators);
            to().w.reset(new AST::StringVector(r));
            return;
        }
        auto r = seq(o); to().v.reset(new AST::NodeVector(r)); }
    else if (op == "ow_ins") {
        auto q = seq(at("s"));
        auto &v = *at("v").n;
        if (flt) { fault("ast_attribute_insert_ast_at"); }
        size_t i = s["i"].get<size_t>() - 1;
        if (i == q.size() && x.n++ % 2 && !flt) { q.push_back(v); }
        else { q.insert(q.begin() + i, v); }
    }
    else if (op == "ow_del") {
        auto q = seq(at("s"));
        size_t i = s["i"].get<size_t>() - 1;
        if (i + 1 == q.size() && x.n++ % 2) { q.pop_back(); }
        else { q.erase(q.begin() + i); }
    }
    else if (op == "ow_copy") {
        bool deep = s["deep"];
        auto &o = *at("s").n;
        if (flt) { fault(deep ? "ast_deep_copy" : "ast_copy"); }
        auto r = deep ? o.deep_copy() : o.copy();
        auto &t = to();
        if (t.n) { *t.n = r; }
        else { t.n.reset(new AST::Node(std::move(r))); }
    }
    else if (op == "ow_parse") {
        std::string f = s["fault"];
        int keep = s["keep"], i = 0;
        std::string t = "p(1..2). q(X) :- p(X). :- r. s(1;2).";
        std::vector<AST::Node> r;
        AST::parse_string((t + (f == "syntax" ? " p(" : "")).c_str(), [&](AST::Node n) {
            if (i++ == keep && keep) {
                if (f == "raise") { throw Err("callback"); }
                r.push_back(std::move(n));
            }
        }, quiet);
        if (!r.empty()) { to().n.reset(new AST::Node(r[0])); }
    }
    else if (op == "ow_walk") {
        std::string w = s["w"];
        auto &n = *at("s").n;
        if (w == "visit") { n.visit_ast([](AST::Node const &) { return true; }); }
        else if (w == "transform") {
            n.transform_ast([](AST::Node const &y) -> AST::Node {
                if (y.type() == AST::Type::SymbolicTerm) { auto r = y.copy(); r.set(AST::Attribute::Symbol, Number(0)); return r; }
                return y;
            });
        }
        else if (w == "repr") { std::ostringstream o; o << n; }
        else if (w == "compare") { auto a = n, b = n.copy(); (void)(a == b); (void)(n < n.deep_copy()); }
        else if (w == "hash") { n.hash(); std::vector<AST::Node> v{n, n}; v.erase(v.begin()); v.insert(v.begin(), n); AST::Node m = std::move(v[0]); AST::Node c{v[0]}; v[0] = c; }
        else if (w == "unpool") { n.unpool(); }
        else {
            AST::NodeValue a{n}, b{a}, c{Optional<AST::Node>{n}};
            a = b; b = std::move(a); c = b; c.swap(b);
            Optional<AST::Node> o{n}, p;
            p = o; { auto const &r = p; p = r; } p = *p; o = std::move(p); o = n; p = AST::Node{n}; p.emplace(n); p.clear();
            if (!o || p) { throw std::logic_error("optional"); }
            n.visit_attribute([](AST::Attribute, AST::NodeValue) {});
        }
    }
    else if (op == "ow_add") { auto &b = *at("s").p; int v = s["v"]; b.add(v ? *sl.at(v).n : stmt(0)); }
    else if (op == "ow_end") {
        for (int i : s["close"]) { auto &o = sl.at(i); if (o.h) { o.h->close(); } else if (o.b) { o.b->close(); } else { o.p->close(); } }
        for (int i : s["order"]) { x.drop(i); }
    }
    else { throw std::invalid_argument("unknown operation " + op); }
}
static json any(Driver &d, char const *op, json const &s) {
    auto &x = static_cast<St &>(*d.st["own"]);
    std::string r = "ok";
    try { run(x, op, s); }
    catch (std::out_of_range const &e) { r = std::string("bug: ") + e.what(); }
    catch (std::invalid_argument const &e) { r = std::string("bug: ") + e.what(); }
    catch (std::exception const &e) { r = "exc"; }
    json o{{"r", r}, {"own", counts()}};
    if (!std::strcmp(op, "ow_end")) { Shim::record(false); reset(false); }
    return o;
}
}
OP(ow_new) {
    d.st["own"].reset();
    Shim::reset();
    d.st["own"] = std::make_shared<own::St>();
    own::reset(true);
    Shim::record(true);
    return nullptr;
}
#define OW(n) OP(n) { return own::any(d, #n, s); }
OW(ow_ctl) OW(ow_bad) OW(ow_borrow) OW(ow_open) OW(ow_use) OW(ow_close) OW(ow_scope) OW(ow_solve) OW(ow_fault) OW(ow_alias) OW(ow_move) OW(ow_swap)
OW(ow_self) OW(ow_drop) OW(ow_build) OW(ow_child) OW(ow_set) OW(ow_unset) OW(ow_seq) OW(ow_ins) OW(ow_del) OW(ow_copy) OW(ow_parse) OW(ow_walk) OW(ow_add) OW(ow_end)
