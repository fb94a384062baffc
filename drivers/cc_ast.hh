// Syntax trees (C13-C15).
namespace {
using AST::Node;
using AST::NodeVector;
using AST::StringVector;
using AST::NodeValue;
using Attr = AST::Attribute;
using Kinds = std::vector<std::pair<std::string, std::string>>;

std::map<std::string, std::pair<AST::Type, std::string>> const &ast_schema() {
    using T = AST::Type;
    static std::map<std::string, std::pair<AST::Type, std::string>> m{
        {"Id", {T::Id, "name:s"}}, {"Variable", {T::Variable, "name:s"}}, {"SymbolicTerm", {T::SymbolicTerm, "symbol:y"}},
        {"UnaryOperation", {T::UnaryOperation, "operator_type:e:UnaryOperator argument:n"}},
        {"BinaryOperation", {T::BinaryOperation, "operator_type:e:BinaryOperator left:n right:n"}},
        {"Interval", {T::Interval, "left:n right:n"}}, {"Function", {T::Function, "name:s arguments:N external:b"}},
        {"Pool", {T::Pool, "arguments:N"}}, {"BooleanConstant", {T::BooleanConstant, "value:b"}},
        {"SymbolicAtom", {T::SymbolicAtom, "symbol:n"}}, {"Comparison", {T::Comparison, "term:n guards:N"}},
        {"Guard", {T::Guard, "comparison:e:ComparisonOperator term:n"}},
        {"ConditionalLiteral", {T::ConditionalLiteral, "literal:n condition:N"}},
        {"Aggregate", {T::Aggregate, "left_guard:o elements:N right_guard:o"}},
        {"BodyAggregateElement", {T::BodyAggregateElement, "terms:N condition:N"}},
        {"BodyAggregate", {T::BodyAggregate, "left_guard:o function:e:AggregateFunction elements:N right_guard:o"}},
        {"HeadAggregateElement", {T::HeadAggregateElement, "terms:N condition:n"}},
        {"HeadAggregate", {T::HeadAggregate, "left_guard:o function:e:AggregateFunction elements:N right_guard:o"}},
        {"Disjunction", {T::Disjunction, "elements:N"}},
        {"TheorySequence", {T::TheorySequence, "sequence_type:e:TheorySequenceType terms:N"}},
        {"TheoryFunction", {T::TheoryFunction, "name:s arguments:N"}},
        {"TheoryUnparsedTermElement", {T::TheoryUnparsedTermElement, "operators:S term:n"}},
        {"TheoryUnparsedTerm", {T::TheoryUnparsedTerm, "elements:N"}}, {"TheoryGuard", {T::TheoryGuard, "operator_name:s term:n"}},
        {"TheoryAtomElement", {T::TheoryAtomElement, "terms:N condition:N"}},
        {"TheoryAtom", {T::TheoryAtom, "term:n elements:N guard:o"}}, {"Literal", {T::Literal, "sign:e:Sign atom:n"}},
        {"TheoryOperatorDefinition", {T::TheoryOperatorDefinition, "name:s priority:i operator_type:e:TheoryOperatorType"}},
        {"TheoryTermDefinition", {T::TheoryTermDefinition, "name:s operators:N"}},
        {"TheoryGuardDefinition", {T::TheoryGuardDefinition, "operators:S term:s"}},
        {"TheoryAtomDefinition", {T::TheoryAtomDefinition, "atom_type:e:TheoryAtomType name:s arity:i term:s guard:o"}},
        {"Rule", {T::Rule, "head:n body:N"}}, {"Definition", {T::Definition, "name:s value:n is_default:b"}},
        {"ShowSignature", {T::ShowSignature, "name:s arity:i positive:b"}}, {"ShowTerm", {T::ShowTerm, "term:n body:N"}},
        {"Minimize", {T::Minimize, "weight:n priority:n terms:N body:N"}}, {"Script", {T::Script, "name:s code:s"}},
        {"Program", {T::Program, "name:s parameters:N"}}, {"External", {T::External, "atom:n body:N external_type:n"}},
        {"Edge", {T::Edge, "node_u:n node_v:n body:N"}},
        {"Heuristic", {T::Heuristic, "atom:n body:N bias:n priority:n modifier:n"}}, {"ProjectAtom", {T::ProjectAtom, "atom:n body:N"}},
        {"ProjectSignature", {T::ProjectSignature, "name:s arity:i positive:b"}}, {"Defined", {T::Defined, "name:s arity:i positive:b"}},
        {"TheoryDefinition", {T::TheoryDefinition, "name:s terms:N atoms:N"}}};
    return m;
}
Kinds const &ast_kinds(std::string const &t) {
    static std::map<std::string, Kinds> m;
    auto it = m.find(t);
    if (it != m.end()) { return it->second; }
    Kinds k;
    std::istringstream in(ast_schema().at(t).second);
    for (std::string x; in >> x;) { auto i = x.find(':'); k.emplace_back(x.substr(0, i), x.substr(i + 1)); }
    return m[t] = k;
}
std::string const &ast_type_name(AST::Type t) {
    for (auto &x : ast_schema()) { if (x.second.first == t) { return x.first; } }
    throw std::runtime_error("unknown type");
}
Attr ast_attr(std::string const &n) {
    using A = Attr;
    static std::map<std::string, A> m{
        {"argument", A::Argument}, {"arguments", A::Arguments}, {"arity", A::Arity}, {"atom", A::Atom}, {"atoms", A::Atoms}, {"atom_type", A::AtomType},
        {"bias", A::Bias}, {"body", A::Body}, {"code", A::Code}, {"comparison", A::Comparison}, {"condition", A::Condition}, {"elements", A::Elements},
        {"external", A::External}, {"external_type", A::ExternalType}, {"function", A::Function}, {"guard", A::Guard}, {"guards", A::Guards},
        {"head", A::Head}, {"is_default", A::IsDefault}, {"left", A::Left}, {"left_guard", A::LeftGuard}, {"literal", A::Literal},
        {"location", A::Location}, {"modifier", A::Modifier}, {"name", A::Name}, {"node_u", A::NodeU}, {"node_v", A::NodeV},
        {"operator_name", A::OperatorName}, {"operator_type", A::OperatorType}, {"operators", A::Operators}, {"parameters", A::Parameters},
        {"positive", A::Positive}, {"priority", A::Priority}, {"right", A::Right}, {"right_guard", A::RightGuard}, {"sequence_type", A::SequenceType},
        {"sign", A::Sign}, {"symbol", A::Symbol}, {"term", A::Term}, {"terms", A::Terms}, {"value", A::Value}, {"weight", A::Weight}};
    return m.at(n);
}
std::map<std::string, int> const &ast_enum(std::string const &e) {
    using namespace AST;
#define E(x) static_cast<int>(x)
    static std::map<std::string, std::map<std::string, int>> m{
        {"UnaryOperator", {{"Minus", E(UnaryOperator::Minus)}, {"Negation", E(UnaryOperator::Negation)}, {"Absolute", E(UnaryOperator::Absolute)}}},
        {"BinaryOperator", {{"XOr", E(BinaryOperator::Xor)}, {"Or", E(BinaryOperator::Or)}, {"And", E(BinaryOperator::And)}, {"Plus", E(BinaryOperator::Plus)},
                            {"Minus", E(BinaryOperator::Minus)}, {"Multiplication", E(BinaryOperator::Multiplication)}, {"Division", E(BinaryOperator::Division)},
                            {"Modulo", E(BinaryOperator::Modulo)}, {"Power", E(BinaryOperator::Power)}}},
        {"ComparisonOperator", {{"GreaterThan", E(ComparisonOperator::GreaterThan)}, {"LessThan", E(ComparisonOperator::LessThan)},
                                {"LessEqual", E(ComparisonOperator::LessEqual)}, {"GreaterEqual", E(ComparisonOperator::GreaterEqual)},
                                {"NotEqual", E(ComparisonOperator::NotEqual)}, {"Equal", E(ComparisonOperator::Equal)}}},
        {"AggregateFunction", {{"Count", E(AggregateFunction::Count)}, {"Sum", E(AggregateFunction::Sum)}, {"SumPlus", E(AggregateFunction::Sump)},
                               {"Min", E(AggregateFunction::Min)}, {"Max", E(AggregateFunction::Max)}}},
        // the installed engine numbers theory sequences differently than the headers of the repository
        {"TheorySequenceType", {{"Tuple", E(AST::TheorySequenceType::Tuple)}, {"List", E(AST::TheorySequenceType::Set)}, {"Set", E(AST::TheorySequenceType::List)}}},
        {"Sign", {{"NoSign", E(Sign::NoSign)}, {"Negation", E(Sign::Negation)}, {"DoubleNegation", E(Sign::DoubleNegation)}}},
        {"TheoryOperatorType", {{"Unary", E(TheoryOperatorType::Unary)}, {"BinaryLeft", E(TheoryOperatorType::BinaryLeft)}, {"BinaryRight", E(TheoryOperatorType::BinaryRight)}}},
        {"TheoryAtomType", {{"Head", E(TheoryAtomDefinitionType::Head)}, {"Body", E(TheoryAtomDefinitionType::Body)}, {"Any", E(TheoryAtomDefinitionType::Any)},
                            {"Directive", E(TheoryAtomDefinitionType::Directive)}}}};
#undef E
    return m.at(e);
}
std::string ast_enum_name(std::string const &e, int v) {
    for (auto &x : ast_enum(e)) { if (x.second == v) { return x.first; } }
    return "?" + std::to_string(v);
}
Location ast_loc() { return {"<loc>", "<loc>", 1, 1, 1, 1}; }

Node mknode(json const &t);
std::vector<Node> mknodes(json const &v) {
    std::vector<Node> r;
    for (auto &x : v) { r.push_back(mknode(x)); }
    return r;
}
Optional<Node> mkopt(json const &v) { return v.empty() ? Optional<Node>{} : Optional<Node>{mknode(v[0])}; }
struct Strs {
    std::vector<std::string> s;
    std::vector<char const *> c;
    explicit Strs(json const &v) {
        for (auto &x : v) { s.push_back(x); }
        for (auto &x : s) { c.push_back(x.c_str()); }
    }
};
Node mknode(json const &t) {
    using T = AST::Type;
    std::string n = t[0];
    auto ty = ast_schema().at(n).first;
    auto L = ast_loc();
    auto &ks = ast_kinds(n);
    std::list<std::string> keep;
    auto s = [&](int i) -> char const * { keep.push_back(t[i]); return keep.back().c_str(); };
    auto i = [&](int i) -> int {
        auto &k = ks[i - 1].second;
        return k[0] == 'e' ? ast_enum(k.substr(2)).at(t[i]) : static_cast<int>(t[i]);
    };
    auto a = [&](int i) { return mknode(t[i]); };
    auto o = [&](int i) { return mkopt(t[i]); };
    auto N = [&](int i) { return mknodes(t[i]); };
    switch (ty) {
        case T::Id: case T::Variable: return {ty, L, s(1)};
        case T::SymbolicTerm: return {ty, L, psym(t[1])};
        case T::UnaryOperation: return {ty, L, i(1), a(2)};
        case T::BinaryOperation: return {ty, L, i(1), a(2), a(3)};
        case T::Interval: return {ty, L, a(1), a(2)};
        case T::Function: return {ty, L, s(1), N(2), i(3)};
        case T::Pool: return {ty, L, N(1)};
        case T::BooleanConstant: return {ty, i(1)};
        case T::SymbolicAtom: return {ty, a(1)};
        case T::Comparison: return {ty, a(1), N(2)};
        case T::Guard: return {ty, i(1), a(2)};
        case T::ConditionalLiteral: return {ty, L, a(1), N(2)};
        case T::Aggregate: return {ty, L, o(1), N(2), o(3)};
        case T::BodyAggregateElement: return {ty, N(1), N(2)};
        case T::BodyAggregate: case T::HeadAggregate: return {ty, L, o(1), i(2), N(3), o(4)};
        case T::HeadAggregateElement: return {ty, N(1), a(2)};
        case T::Disjunction: return {ty, L, N(1)};
        case T::TheorySequence: return {ty, L, i(1), N(2)};
        case T::TheoryFunction: return {ty, L, s(1), N(2)};
        case T::TheoryUnparsedTermElement: { Strs x(t[1]); return {ty, x.c, a(2)}; }
        case T::TheoryUnparsedTerm: return {ty, L, N(1)};
        case T::TheoryGuard: return {ty, s(1), a(2)};
        case T::TheoryAtomElement: return {ty, N(1), N(2)};
        case T::TheoryAtom: return {ty, L, a(1), N(2), o(3)};
        case T::Literal: return {ty, L, i(1), a(2)};
        case T::TheoryOperatorDefinition: return {ty, L, s(1), i(2), i(3)};
        case T::TheoryTermDefinition: return {ty, L, s(1), N(2)};
        case T::TheoryGuardDefinition: { Strs x(t[1]); return {ty, x.c, s(2)}; }
        case T::TheoryAtomDefinition: return {ty, L, i(1), s(2), i(3), s(4), o(5)};
        case T::Rule: return {ty, L, a(1), N(2)};
        case T::Definition: return {ty, L, s(1), a(2), i(3)};
        case T::ShowSignature: case T::ProjectSignature: case T::Defined: return {ty, L, s(1), i(2), i(3)};
        case T::ShowTerm: return {ty, L, a(1), N(2)};
        case T::Minimize: return {ty, L, a(1), a(2), N(3), N(4)};
        case T::Script: return {ty, L, s(1), s(2)};
        case T::Program: return {ty, L, s(1), N(2)};
        case T::External: return {ty, L, a(1), N(2), a(3)};
        case T::Edge: return {ty, L, a(1), a(2), N(3)};
        case T::Heuristic: return {ty, L, a(1), N(2), a(3), a(4), a(5)};
        case T::ProjectAtom: return {ty, L, a(1), N(2)};
        case T::TheoryDefinition: return {ty, L, s(1), N(2), N(3)};
        case T::Comment: break;
    }
    throw std::runtime_error("unknown type");
}

json ast_dump(Node const &a) {
    std::string n = ast_type_name(a.type());
    json r = {n};
    for (auto &x : ast_kinds(n)) {
        auto attr = ast_attr(x.first);
        auto &k = x.second;
        json v;
        auto val = a.get(attr);
        switch (k[0]) {
            case 'i': case 'b': v = val.get<int>(); break;
            case 'e': v = ast_enum_name(k.substr(2), a.get<int>(attr)); break;
            case 's': v = std::string(val.get<char const *>()); break;
            case 'y': v = val.get<Symbol>().to_string(); break;
            case 'n': v = ast_dump(val.get<Node>()); break;
            case 'o': {
                v = json::array();
                auto p = a.get<Optional<Node>>(attr);
                if (p) { v.push_back(ast_dump(*p)); }
                break;
            }
            case 'N': {
                v = json::array();
                auto const &vec = val.get<NodeVector>();
                auto mut = a.get<NodeVector>(attr);
                size_t j = 0;
                for (auto y : vec) {
                    v.push_back(ast_dump(y));
                    if (vec[j].to_c() != y.to_c() || mut[j].get().to_c() != y.to_c() || vec.at(j)->to_c() != y.to_c()) { throw std::runtime_error("vector"); }
                    ++j;
                }
                for (Node y : mut) { j -= y.to_c() != nullptr; }
                if (j != 0 || vec.size() != v.size() || mut.empty() != v.empty()) { throw std::runtime_error("vector"); }
                break;
            }
            default: {
                v = json::array();
                auto const &vec = val.get<StringVector>();
                auto mut = a.get<StringVector>(attr);
                size_t j = 0;
                for (auto y : vec) {
                    v.push_back(std::string(y));
                    if (std::strcmp(vec[j], y) != 0 || std::strcmp(mut[j], y) != 0) { throw std::runtime_error("vector"); }
                    ++j;
                }
                for (auto y : mut) { j -= y.get() != nullptr; }
                if (j != 0 || vec.size() != v.size() || mut.empty() != v.empty()) { throw std::runtime_error("vector"); }
            }
        }
        r.push_back(v);
    }
    return r;
}
bool ast_same(Node const &a, Node const &b) {
    return a == b && !(a != b) && a.hash() == b.hash() && std::hash<Node>{}(a) == b.hash() && !(a < b) && !(a > b) && a <= b && a >= b && a.to_string() == b.to_string();
}
std::vector<Node> ast_collect(std::string const &text, std::string const &how = "string", std::string *file = nullptr) {
    std::vector<Node> r;
    auto cb = [&](Node n) { r.push_back(std::move(n)); };
    if (how == "string") { AST::parse_string(text.c_str(), cb); }
    else if (how == "control") { Control ctl; AST::parse_string(text.c_str(), cb, ctl); }
    else {
        char name[] = "/tmp/astXXXXXX";
        int fd = mkstemp(name);
        if (write(fd, text.data(), text.size()) != static_cast<ssize_t>(text.size())) { throw std::runtime_error("write"); }
        close(fd);
        char const *f[] = {name};
        try { AST::parse_files(StringSpan{f, 1}, cb); } catch (...) { unlink(name); throw; }
        unlink(name);
        if (file) { *file = name; }
    }
    return r;
}
json ast_loc_of(Node const &a, std::string const &file) {
    auto l = a.get<Location>(Attr::Location);
    if (l.begin_file() != file || l.end_file() != file) { throw std::runtime_error("file"); }
    return {l.begin_line(), l.begin_column(), l.end_line(), l.end_column()};
}
OP(ast_parse) {
    std::string file = "<string>";
    auto l = ast_collect(s["text"], s["how"], &file);
    json trees = json::array(), texts = json::array(), locs = json::array();
    bool reb = true, again = true;
    for (auto &x : l) {
        trees.push_back(ast_dump(x));
        std::ostringstream o; o << x;
        texts.push_back(o.str());
        if (texts.size() > 1) { locs.push_back(ast_loc_of(x, file)); }
        reb = reb && ast_same(x, mknode(trees.back()));
        again = again && ast_same(x, ast_collect(x.to_string()).back());
    }
    return {{"trees", trees}, {"texts", texts}, {"locs", locs}, {"rebuilt", reb}, {"again", again}};
}
OP(ast_build) {
    auto a = mknode(s["tree"]), b = mknode(s["tree"]);
    json keys = json::array();
    bool ok = ast_same(a.copy(), a) && ast_same(a.deep_copy(), a);
    a.visit_attribute([&](Attr attr, NodeValue const &v) {
        for (auto &k : s["keys"]) { if (ast_attr(k) == attr) { keys.push_back(k); } }
        std::string name = keys.empty() ? "" : std::string(keys.back());
        if (name == "location") { ok = ok && v.is<Location>(); }
        for (auto &x : ast_kinds(s["tree"][0])) {
            if (x.first != name) { continue; }
            switch (x.second[0]) {
                case 'i': case 'b': case 'e': ok = ok && v.is<int>(); break;
                case 's': ok = ok && v.is<char const *>(); break;
                case 'y': ok = ok && v.is<Symbol>(); break;
                case 'n': ok = ok && v.is<Node>(); break;
                case 'o': ok = ok && v.is<Optional<Node>>(); break;
                case 'N': ok = ok && v.is<NodeVector>(); break;
                default: ok = ok && v.is<StringVector>();
            }
        }
    });
    try { a.get(a.type() == AST::Type::Id ? Attr::Body : Attr::Coefficient); ok = false; } catch (std::runtime_error const &) { }
    return {{"tree", ast_dump(a)}, {"text", a.to_string()}, {"same", ast_same(a, b)}, {"keys", ok && keys == s["keys"]}};
}
} // namespace
void add_ast(Driver &d, json const &s) {
    std::string text = "#program " + std::string(s["part"]);
    std::string sep = "(";
    for (auto &x : s["params"]) { text += sep + std::string(x); sep = ","; }
    text += std::string(sep == "," ? ")" : "") + ".\n" + std::string(s["text"]);
    std::string f = s["form"];
    if (f == "ast") {
        AST::ProgramBuilder b{*d.ctl};
        AST::parse_string(text.c_str(), [&](Node const &n) { b.add(n); });
        b.close();
        return;
    }
    AST::with_builder(*d.ctl, [&](AST::ProgramBuilder &b) {
        for (auto &x : ast_collect(text)) {
            if (f == "ast_built") { b.add(mknode(ast_dump(x))); }
            else if (f == "ast_deep") { b.add(x.deep_copy()); }
            else if (f == "ast_text") { b.add(ast_collect(x.to_string()).back()); }
            else if (f == "ast_unpool") { for (auto &y : x.unpool()) { b.add(y); } }
            else if (f == "ast_update") { b.add(x.copy()); }
            else { b.add(x); }
        }
    });
}
namespace {
std::deque<Optional<Node>> hh; // handles
struct AstView { std::string kind; Optional<Node> node; Attr attr; std::unique_ptr<NodeVector> n; std::unique_ptr<StringVector> s; };
std::deque<AstView> hv;
Node &hnode(json const &i) { return *hh.at(static_cast<size_t>(i) - 1); }
std::vector<Node> hnodes(json const &v) {
    std::vector<Node> r;
    for (auto &x : v) { r.push_back(hnode(x)); }
    return r;
}
json hcontent(AstView const &v) {
    json r = json::array();
    if (v.n) { for (auto x : static_cast<NodeVector const &>(*v.n)) { r.push_back(ast_dump(x)); } }
    else { for (auto x : static_cast<StringVector const &>(*v.s)) { r.push_back(std::string(x)); } }
    if (r.size() != (v.n ? v.n->size() : v.s->size()) || (v.n ? v.n->empty() : v.s->empty()) != r.empty()) { throw std::runtime_error("size"); }
    return r;
}
json hobs(json const &r) {
    json d = json::array(), l = json::array(), w = json::array();
    for (auto &x : hh) {
        d.push_back(x ? ast_dump(*x) : json("gone"));
        int line = 0;
        if (x) { try { line = static_cast<int>(x->get<Location>(Attr::Location).begin_line()); } catch (std::runtime_error const &) { } }
        l.push_back(line);
    }
    for (size_t i = 0; i < hh.size(); ++i) {
        for (size_t j = 0; j < hh.size(); ++j) {
            if (hh[i] && hh[j] && ((*hh[i] == *hh[j]) != (d[i] == d[j]) || (d[i] == d[j] && hh[i]->hash() != hh[j]->hash()))) { throw std::runtime_error("equality"); }
        }
    }
    for (auto &v : hv) { w.push_back(v.n || v.s ? hcontent(v) : json("gone")); }
    return {{"r", r}, {"d", d}, {"l", l}, {"v", w}};
}
OP(t_init) {
    hh.clear(); hv.clear();
    hh.emplace_back(mknode(json::parse(R"(["Variable", "a"])")));
    hh.emplace_back(mknode(json::parse(R"(["SymbolicTerm", "7"])")));
    return nullptr;
}
// a node of the given type with the given kind of value for one attribute; all others from handles
Node hbuild(std::string const &t, json const &a) {
    using T = AST::Type;
    auto ty = ast_schema().at(t).first;
    auto L = ast_loc();
    auto &ks = ast_kinds(t);
    std::list<std::string> keep;
    auto s = [&](int i) -> char const * { keep.push_back(a[i]); return keep.back().c_str(); };
    auto i = [&](int i) -> int { auto &k = ks[i].second; return k[0] == 'e' ? ast_enum(k.substr(2)).at(a[i]) : static_cast<int>(a[i]); };
    auto n = [&](int i) { return hnode(a[i]); };
    auto o = [&](int i) { return a[i].empty() ? Optional<Node>{} : Optional<Node>{hnode(a[i][0])}; };
    auto N = [&](int i) { return hnodes(a[i]); };
    switch (ty) {
        case T::Id: case T::Variable: return {ty, L, s(0)};
        case T::SymbolicTerm: return {ty, L, psym(a[0])};
        case T::UnaryOperation: return {ty, L, i(0), n(1)};
        case T::BinaryOperation: return {ty, L, i(0), n(1), n(2)};
        case T::Interval: return {ty, L, n(0), n(1)};
        case T::Function: return {ty, L, s(0), N(1), i(2)};
        case T::Pool: return {ty, L, N(0)};
        case T::BooleanConstant: return {ty, i(0)};
        case T::SymbolicAtom: return {ty, n(0)};
        case T::Comparison: return {ty, n(0), N(1)};
        case T::Guard: return {ty, i(0), n(1)};
        case T::ConditionalLiteral: return {ty, L, n(0), N(1)};
        case T::Aggregate: return {ty, L, o(0), N(1), o(2)};
        case T::BodyAggregateElement: return {ty, N(0), N(1)};
        case T::BodyAggregate: case T::HeadAggregate: return {ty, L, o(0), i(1), N(2), o(3)};
        case T::HeadAggregateElement: return {ty, N(0), n(1)};
        case T::Disjunction: return {ty, L, N(0)};
        case T::TheorySequence: return {ty, L, i(0), N(1)};
        case T::TheoryFunction: return {ty, L, s(0), N(1)};
        case T::TheoryUnparsedTermElement: { Strs x(a[0]); return {ty, x.c, n(1)}; }
        case T::TheoryUnparsedTerm: return {ty, L, N(0)};
        case T::TheoryGuard: return {ty, s(0), n(1)};
        case T::TheoryAtomElement: return {ty, N(0), N(1)};
        case T::TheoryAtom: return {ty, L, n(0), N(1), o(2)};
        case T::Literal: return {ty, L, i(0), n(1)};
        case T::TheoryOperatorDefinition: return {ty, L, s(0), i(1), i(2)};
        case T::TheoryTermDefinition: return {ty, L, s(0), N(1)};
        case T::TheoryGuardDefinition: { Strs x(a[0]); return {ty, x.c, s(1)}; }
        case T::TheoryAtomDefinition: return {ty, L, i(0), s(1), i(2), s(3), o(4)};
        case T::Rule: return {ty, L, n(0), N(1)};
        case T::Definition: return {ty, L, s(0), n(1), i(2)};
        case T::ShowSignature: case T::ProjectSignature: case T::Defined: return {ty, L, s(0), i(1), i(2)};
        case T::ShowTerm: return {ty, L, n(0), N(1)};
        case T::Minimize: return {ty, L, n(0), n(1), N(2), N(3)};
        case T::Script: return {ty, L, s(0), s(1)};
        case T::Program: return {ty, L, s(0), N(1)};
        case T::External: return {ty, L, n(0), N(1), n(2)};
        case T::Edge: return {ty, L, n(0), n(1), N(2)};
        case T::Heuristic: return {ty, L, n(0), N(1), n(2), n(3), n(4)};
        case T::ProjectAtom: return {ty, L, n(0), N(1)};
        case T::TheoryDefinition: return {ty, L, s(0), N(1), N(2)};
        case T::Comment: break;
    }
    throw std::runtime_error("unknown type");
}
OP(t_build) {
    Node x = hbuild(s["t"], s["args"]);
    hh.emplace_back(x);
    return hobs("ok");
}
OP(t_get) {
    std::string r = "node";
    if (s["kind"] == "n") { hh.emplace_back(hnode(s["h"]).get<Node>(ast_attr(s["attr"]))); }
    else {
        auto v = hnode(s["h"]).get<Optional<Node>>(ast_attr(s["attr"]));
        if (v) { hh.emplace_back(*v); } else { r = "none"; }
    }
    return hobs(r);
}
OP(t_set) {
    Node &x = hnode(s["h"]);
    auto attr = ast_attr(s["attr"]);
    std::string k = s["kind"], how = s["how"];
    auto &v = s["val"];
    switch (k[0]) {
        case 'i': case 'b': x.set(attr, static_cast<int>(v)); break;
        case 'e': x.set(attr, ast_enum(k.substr(2)).at(v)); break;
        case 's': { std::string t = v; x.set(attr, t.c_str()); break; }
        case 'y': x.set(attr, psym(v)); break;
        case 'n': x.set(attr, hnode(v)); break;
        case 'o': x.set(attr, v.empty() ? Optional<Node>{} : Optional<Node>{hnode(v[0])}); break;
        case 'N': {
            auto l = hnodes(v);
            if (how == "list") { x.set(attr, Node{AST::Type::Pool, ast_loc(), l}.get(Attr::Arguments)); }
            else {
                auto vec = x.get<NodeVector>(attr);
                vec.clear();
                if (how == "tuple") { for (auto &y : l) { vec.push_back(y); } }
                else { std::copy(l.begin(), l.end(), std::back_inserter(vec)); }
            }
            break;
        }
        default: {
            Strs l(v);
            if (how == "list") { x.set(attr, Node{AST::Type::TheoryUnparsedTermElement, l.c, mknode(json::parse(R"(["Variable", "a"])"))}.get(Attr::Operators)); }
            else {
                auto vec = x.get<StringVector>(attr);
                vec.clear();
                if (how == "tuple") { for (auto *y : l.c) { vec.push_back(y); } }
                else { std::copy(l.c.begin(), l.c.end(), std::back_inserter(vec)); }
            }
        }
    }
    return hobs("ok");
}
OP(t_setview) {
    auto &v = hv.at(static_cast<size_t>(s["v"]) - 1);
    auto attr = ast_attr(s["attr"]);
    if (v.n) { hnode(s["h"]).set(attr, *v.n); } else { hnode(s["h"]).set(attr, *v.s); }
    return hobs("ok");
}
OP(t_setself) {
    Node &x = hnode(s["h"]);
    x.set(ast_attr(s["attr"]), x.get(ast_attr(s["src"])));
    return hobs("ok");
}
OP(t_bad) {
    int n = 0;
    try { hnode(s["h"]).get(ast_attr(s["attr"])); } catch (std::runtime_error const &) { ++n; }
    try { hnode(s["h"]).set(ast_attr(s["attr"]), 1); } catch (std::runtime_error const &) { ++n; }
    return hobs(n == 2 ? "error" : "ok");
}
OP(t_copy) { auto x = hnode(s["h"]).copy(); hh.emplace_back(std::move(x)); return hobs("ok"); }
OP(t_deep) { auto x = hnode(s["h"]).deep_copy(); hh.emplace_back(std::move(x)); return hobs("ok"); }
OP(t_drop) { hh.at(static_cast<size_t>(s["h"]) - 1) = Optional<Node>{}; return hobs("ok"); }
OP(t_cmp) {
    Node &a = hnode(s["a"]), &b = hnode(s["b"]);
    bool eq = a == b, lt = a < b, gt = a > b;
    if ((a != b) == eq || (a <= b) != (eq || lt) || (a >= b) != (eq || gt) || (eq && a.hash() != b.hash())) { throw std::runtime_error("comparison"); }
    return hobs({eq, lt, gt});
}
OP(t_loc) {
    size_t n = s["n"];
    std::string f = "f" + std::to_string(n);
    hnode(s["h"]).set(Attr::Location, Location{f.c_str(), f.c_str(), n, n + 1, 2, 3});
    auto l = hnode(s["h"]).get<Location>(Attr::Location);
    if (l.begin_file() != f || l.end_file() != f || l.begin_line() != n || l.end_line() != n + 1 || l.begin_column() != 2 || l.end_column() != 3) { throw std::runtime_error("location"); }
    return hobs("ok");
}
OP(v_new) {
    auto attr = ast_attr(s["attr"]);
    AstView v{s["kind"], {}, attr, nullptr, nullptr};
    if (v.kind == "N") { v.n = std::make_unique<NodeVector>(hnode(s["h"]).get<NodeVector>(attr)); }
    else { v.s = std::make_unique<StringVector>(hnode(s["h"]).get<StringVector>(attr)); }
    if ((v.n ? v.n->ast() : v.s->ast()).to_c() != hnode(s["h"]).to_c()) { throw std::runtime_error("owner"); }
    hv.push_back(std::move(v));
    return hobs("ok");
}
OP(v_drop) { auto &v = hv.at(static_cast<size_t>(s["v"]) - 1); v.n = nullptr; v.s = nullptr; return hobs("ok"); }
json vout(Node const &x) { return ast_dump(x); }
json vout(char const *x) { return std::string(x); }
template <class V, class X>
json vop(V &v, json const &s, X x) {
    std::string f = s["f"];
    V const &c = v;
    int i = s["i"];
    size_t n = v.size();
    using Val = typename V::value_type;
    if (f == "get") {
        Val a = c[i];
        Val b = v[i];
        Val d = *(c.begin() + i);
        Val e = *(v.begin() + i);
        Val g = *(c.end() - static_cast<int>(n - i));
        auto r = vout(a);
        if (vout(b) != r || vout(d) != r || vout(e) != r || vout(g) != r || vout(v[i].get()) != r) { throw std::runtime_error("access"); }
        return r;
    }
    if (f == "set") { v.set(v.begin() + i, x); }
    else if (f == "ref") {
        switch (i % 3) {
            case 0: v[i] = x; break;
            case 1: *(v.begin() + i) = x; break;
            default: { auto it = v.begin(); std::advance(it, i); *it = x; }
        }
    }
    else if (f == "ins") {
        auto it = v.insert(v.begin() + i, x);
        if (it - v.begin() != i) { throw std::runtime_error("insert"); }
    }
    else if (f == "del") {
        auto it = v.erase(v.begin() + i);
        if (it - v.begin() != i) { throw std::runtime_error("erase"); }
    }
    else if (f == "app") { v.push_back(x); }
    else if (f == "pop") { Val b = v[n - 1]; auto r = vout(b); v.pop_back(); return r; }
    else if (f == "clr") { v.clear(); }
    else if (f == "len") {
        if (v.end() - v.begin() != static_cast<int>(n) || c.end() - c.begin() != static_cast<int>(n)) { throw std::runtime_error("range"); }
        return n;
    }
    else {
        int k = 0;
        try { Val b = c[n]; } catch (std::exception const &) { ++k; }
        try { Val b = v[n]; } catch (std::exception const &) { ++k; }
        return k == 2 ? "error" : "ok";
    }
    return "ok";
}
OP(v_op) {
    auto &v = hv.at(static_cast<size_t>(s["v"]) - 1);
    json r;
    if (v.n) { Node x = hnode(s["x"]); r = vop(*v.n, s, x); }
    else { std::string x = s["x"]; r = vop(*v.s, s, x.c_str()); }
    return hobs(r);
}
} // namespace
namespace {
template <class F> void ast_children(Node const &a, F f) {
    for (auto &x : ast_kinds(ast_type_name(a.type()))) {
        auto attr = ast_attr(x.first);
        if (x.second == "n") { f(a.get<Node>(attr)); }
        else if (x.second == "o") { auto v = a.get<Optional<Node>>(attr); if (v) { f(*v); } }
        else if (x.second == "N") { for (Node y : a.get<NodeVector>(attr)) { f(y); } }
    }
}
bool ast_has_loc(Node const &a) { try { a.get(Attr::Location); return true; } catch (std::runtime_error const &) { return false; } }
void ast_number(Node a, int &n) {
    if (ast_has_loc(a)) { a.set(Attr::Location, Location{"<loc>", "<loc>", static_cast<size_t>(n), static_cast<size_t>(n), 1, 1}); }
    ++n;
    ast_children(a, [&](Node const &x) { ast_number(x, n); });
}
void ast_lines(Node const &a, json &r) {
    r.push_back(ast_has_loc(a) ? a.get<Location>(Attr::Location).begin_line() : 0);
    ast_children(a, [&](Node const &x) { ast_lines(x, r); });
}
struct AstTr {
    std::map<std::string, std::string> rules;
    json log = json::array();
    Node tr(Node const &a, int d, std::string const &g) {
        std::string t = ast_type_name(a.type());
        auto it = rules.find(t);
        if (it != rules.end()) {
            log.push_back({t, d, g});
            auto &k = it->second;
            if (k == "keep") { return a; }
            if (k == "new") { return mknode(json::parse(R"(["Variable", "Zz"])")); }
            if (k == "copy") { return a.copy(); }
            if (k == "ren") {
                char const *n = "nm";
                try { n = a.get<char const *>(Attr::Name); } catch (std::runtime_error const &) { }
                if (std::strcmp(n, "nm") == 0) { return a; }
                Node b = a.copy();
                b.set(Attr::Name, static_cast<char const *>("nm"));
                return b;
            }
            return a.transform_ast([&](Node const &x) { return tr(x, d + 1, g + "x"); });
        }
        auto f = [&](Node const &x) { return tr(x, d, g); };
        return log.size() % 2 == 0 ? a.transform_ast(f) : a.transform_ast([&](Node const &x) { return tr(x, d, g); });
    }
};
OP(ast_trans) {
    Node a = mknode(s["tree"]);
    int n = 100;
    ast_number(a, n);
    AstTr t;
    for (auto &x : s["rules"]) { t.rules[x[0]] = x[1]; }
    Node r = t.tr(a, s["d"], s["tag"]);
    json tree = ast_dump(r), lines = json::array();
    if (ast_dump(a) != s["tree"]) { throw std::runtime_error("original changed"); }
    n = 200;
    ast_number(a, n);
    ast_lines(r, lines);
    return {{"same", r.to_c() == a.to_c()}, {"tree", tree}, {"lines", lines}, {"log", t.log}};
}
OP(ast_visit) {
    Node a = mknode(s["tree"]);
    json log = json::array();
    a.visit_ast([&](Node const &x) {
        log.push_back(ast_type_name(x.type()));
        for (auto &y : s["stop"]) { if (y == log.back()) { return false; } }
        return true;
    });
    if (ast_dump(a) != s["tree"]) { throw std::runtime_error("original changed"); }
    return log;
}
} // namespace
