// Syntax trees of /repo's own library (G07): programs take the way through trees before they are grounded.
#pragma once
#include <clingo.h>
#include <clingo/astv2.hh>
#include <gringo/input/nongroundparser.hh>

namespace gr07 {
using namespace Gringo;
using namespace Gringo::Input;

struct Row { char const *name; clingo_ast_type_e type; char const *attrs; };
static Row const rows[] = {
    {"Id", clingo_ast_type_id, "name:s"},
    {"Variable", clingo_ast_type_variable, "name:s"},
    {"SymbolicTerm", clingo_ast_type_symbolic_term, "symbol:y"},
    {"UnaryOperation", clingo_ast_type_unary_operation, "operator_type:e:UnaryOperator argument:n"},
    {"BinaryOperation", clingo_ast_type_binary_operation, "operator_type:e:BinaryOperator left:n right:n"},
    {"Interval", clingo_ast_type_interval, "left:n right:n"},
    {"Function", clingo_ast_type_function, "name:s arguments:N external:b"},
    {"Pool", clingo_ast_type_pool, "arguments:N"},
    {"BooleanConstant", clingo_ast_type_boolean_constant, "value:b"},
    {"SymbolicAtom", clingo_ast_type_symbolic_atom, "symbol:n"},
    {"Comparison", clingo_ast_type_comparison, "term:n guards:N"},
    {"Guard", clingo_ast_type_guard, "comparison:e:ComparisonOperator term:n"},
    {"ConditionalLiteral", clingo_ast_type_conditional_literal, "literal:n condition:N"},
    {"Aggregate", clingo_ast_type_aggregate, "left_guard:o elements:N right_guard:o"},
    {"BodyAggregateElement", clingo_ast_type_body_aggregate_element, "terms:N condition:N"},
    {"BodyAggregate", clingo_ast_type_body_aggregate, "left_guard:o function:e:AggregateFunction elements:N right_guard:o"},
    {"HeadAggregateElement", clingo_ast_type_head_aggregate_element, "terms:N condition:n"},
    {"HeadAggregate", clingo_ast_type_head_aggregate, "left_guard:o function:e:AggregateFunction elements:N right_guard:o"},
    {"Disjunction", clingo_ast_type_disjunction, "elements:N"},
    {"TheorySequence", clingo_ast_type_theory_sequence, "sequence_type:e:TheorySequenceType terms:N"},
    {"TheoryFunction", clingo_ast_type_theory_function, "name:s arguments:N"},
    {"TheoryUnparsedTermElement", clingo_ast_type_theory_unparsed_term_element, "operators:S term:n"},
    {"TheoryUnparsedTerm", clingo_ast_type_theory_unparsed_term, "elements:N"},
    {"TheoryGuard", clingo_ast_type_theory_guard, "operator_name:s term:n"},
    {"TheoryAtomElement", clingo_ast_type_theory_atom_element, "terms:N condition:N"},
    {"TheoryAtom", clingo_ast_type_theory_atom, "term:n elements:N guard:o"},
    {"Literal", clingo_ast_type_literal, "sign:e:Sign atom:n"},
    {"TheoryOperatorDefinition", clingo_ast_type_theory_operator_definition, "name:s priority:i operator_type:e:TheoryOperatorType"},
    {"TheoryTermDefinition", clingo_ast_type_theory_term_definition, "name:s operators:N"},
    {"TheoryGuardDefinition", clingo_ast_type_theory_guard_definition, "operators:S term:s"},
    {"TheoryAtomDefinition", clingo_ast_type_theory_atom_definition, "atom_type:e:TheoryAtomType name:s arity:i term:s guard:o"},
    {"Rule", clingo_ast_type_rule, "head:n body:N"},
    {"Definition", clingo_ast_type_definition, "name:s value:n is_default:b"},
    {"ShowSignature", clingo_ast_type_show_signature, "name:s arity:i positive:b"},
    {"ShowTerm", clingo_ast_type_show_term, "term:n body:N"},
    {"Minimize", clingo_ast_type_minimize, "weight:n priority:n terms:N body:N"},
    {"Script", clingo_ast_type_script, "name:s code:s"},
    {"Program", clingo_ast_type_program, "name:s parameters:N"},
    {"External", clingo_ast_type_external, "atom:n body:N external_type:n"},
    {"Edge", clingo_ast_type_edge, "node_u:n node_v:n body:N"},
    {"Heuristic", clingo_ast_type_heuristic, "atom:n body:N bias:n priority:n modifier:n"},
    {"ProjectAtom", clingo_ast_type_project_atom, "atom:n body:N"},
    {"ProjectSignature", clingo_ast_type_project_signature, "name:s arity:i positive:b"},
    {"Defined", clingo_ast_type_defined, "name:s arity:i positive:b"},
    {"TheoryDefinition", clingo_ast_type_theory_definition, "name:s terms:N atoms:N"},
};
static std::map<std::string, clingo_ast_attribute_e> const attrs{
    {"argument", clingo_ast_attribute_argument},
    {"arguments", clingo_ast_attribute_arguments},
    {"arity", clingo_ast_attribute_arity},
    {"atom", clingo_ast_attribute_atom},
    {"atom_type", clingo_ast_attribute_atom_type},
    {"atoms", clingo_ast_attribute_atoms},
    {"bias", clingo_ast_attribute_bias},
    {"body", clingo_ast_attribute_body},
    {"code", clingo_ast_attribute_code},
    {"comparison", clingo_ast_attribute_comparison},
    {"condition", clingo_ast_attribute_condition},
    {"elements", clingo_ast_attribute_elements},
    {"external", clingo_ast_attribute_external},
    {"external_type", clingo_ast_attribute_external_type},
    {"function", clingo_ast_attribute_function},
    {"guard", clingo_ast_attribute_guard},
    {"guards", clingo_ast_attribute_guards},
    {"head", clingo_ast_attribute_head},
    {"is_default", clingo_ast_attribute_is_default},
    {"left", clingo_ast_attribute_left},
    {"left_guard", clingo_ast_attribute_left_guard},
    {"literal", clingo_ast_attribute_literal},
    {"modifier", clingo_ast_attribute_modifier},
    {"name", clingo_ast_attribute_name},
    {"node_u", clingo_ast_attribute_node_u},
    {"node_v", clingo_ast_attribute_node_v},
    {"operator_name", clingo_ast_attribute_operator_name},
    {"operator_type", clingo_ast_attribute_operator_type},
    {"operators", clingo_ast_attribute_operators},
    {"parameters", clingo_ast_attribute_parameters},
    {"positive", clingo_ast_attribute_positive},
    {"priority", clingo_ast_attribute_priority},
    {"right", clingo_ast_attribute_right},
    {"right_guard", clingo_ast_attribute_right_guard},
    {"sequence_type", clingo_ast_attribute_sequence_type},
    {"sign", clingo_ast_attribute_sign},
    {"symbol", clingo_ast_attribute_symbol},
    {"term", clingo_ast_attribute_term},
    {"terms", clingo_ast_attribute_terms},
    {"value", clingo_ast_attribute_value},
    {"weight", clingo_ast_attribute_weight},
};
static std::map<std::string, std::map<int, char const *>> const enums{
    {"UnaryOperator", {{clingo_ast_unary_operator_minus, "Minus"}, {clingo_ast_unary_operator_negation, "Negation"}, {clingo_ast_unary_operator_absolute, "Absolute"}}},
    {"BinaryOperator", {{clingo_ast_binary_operator_xor, "XOr"}, {clingo_ast_binary_operator_or, "Or"}, {clingo_ast_binary_operator_and, "And"}, {clingo_ast_binary_operator_plus, "Plus"}, {clingo_ast_binary_operator_minus, "Minus"}, {clingo_ast_binary_operator_multiplication, "Multiplication"}, {clingo_ast_binary_operator_division, "Division"}, {clingo_ast_binary_operator_modulo, "Modulo"}, {clingo_ast_binary_operator_power, "Power"}}},
    {"ComparisonOperator", {{clingo_ast_comparison_operator_greater_than, "GreaterThan"}, {clingo_ast_comparison_operator_less_than, "LessThan"}, {clingo_ast_comparison_operator_less_equal, "LessEqual"}, {clingo_ast_comparison_operator_greater_equal, "GreaterEqual"}, {clingo_ast_comparison_operator_not_equal, "NotEqual"}, {clingo_ast_comparison_operator_equal, "Equal"}}},
    {"AggregateFunction", {{clingo_ast_aggregate_function_count, "Count"}, {clingo_ast_aggregate_function_sum, "Sum"}, {clingo_ast_aggregate_function_sump, "SumPlus"}, {clingo_ast_aggregate_function_min, "Min"}, {clingo_ast_aggregate_function_max, "Max"}}},
    {"TheorySequenceType", {{clingo_ast_theory_sequence_type_tuple, "Tuple"}, {clingo_ast_theory_sequence_type_list, "List"}, {clingo_ast_theory_sequence_type_set, "Set"}}},
    {"Sign", {{clingo_ast_sign_no_sign, "NoSign"}, {clingo_ast_sign_negation, "Negation"}, {clingo_ast_sign_double_negation, "DoubleNegation"}}},
    {"TheoryOperatorType", {{clingo_ast_theory_operator_type_unary, "Unary"}, {clingo_ast_theory_operator_type_binary_left, "BinaryLeft"}, {clingo_ast_theory_operator_type_binary_right, "BinaryRight"}}},
    {"TheoryAtomType", {{clingo_ast_theory_atom_definition_type_head, "Head"}, {clingo_ast_theory_atom_definition_type_body, "Body"}, {clingo_ast_theory_atom_definition_type_any, "Any"}, {clingo_ast_theory_atom_definition_type_directive, "Directive"}}},
};

static json dump(AST &a) {
    for (auto const &r : rows) {
        if (r.type != a.type()) { continue; }
        json res = {r.name};
        std::istringstream in(r.attrs);
        for (std::string x; in >> x;) {
            auto i = x.find(':');
            auto &val = a.value(attrs.at(x.substr(0, i)));
            std::string k = x.substr(i + 1);
            json v;
            switch (k[0]) {
                case 'i': case 'b': v = mpark::get<int>(val); break;
                case 'e': v = enums.at(k.substr(2)).at(mpark::get<int>(val)); break;
                case 's': v = std::string(mpark::get<String>(val).c_str()); break;
                case 'y': { std::ostringstream o; o << mpark::get<Symbol>(val); v = o.str(); break; }
                case 'n': v = dump(*mpark::get<SAST>(val)); break;
                case 'o': v = json::array(); if (mpark::get<OAST>(val).ast.get() != nullptr) { v.push_back(dump(*mpark::get<OAST>(val).ast)); } break;
                case 'N': v = json::array(); for (auto &y : mpark::get<AST::ASTVec>(val)) { v.push_back(dump(*y)); } break;
                default: v = json::array(); for (auto &y : mpark::get<AST::StrVec>(val)) { v.push_back(std::string(y.c_str())); }
            }
            res.push_back(v);
        }
        return res;
    }
    throw std::runtime_error("unknown type of node");
}
static std::string str(AST const &a) { std::ostringstream o; o << a; return o.str(); }
static bool no_pool(json const &t) {
    if (!t.is_array()) { return true; }
    if (t.size() == 2 && t[0] == "Pool" && t[1].is_array()) { return false; }
    for (auto const &x : t) { if (!no_pool(x)) { return false; } }
    return true;
}
static bool same(AST const &a, AST const &b) { return a == b && b == a && !(a < b) && !(b < a) && a.hash() == b.hash(); }
static AST::ASTVec collect(std::string const &text, std::string const &part, std::vector<std::string> const &ps, Logger &log) {
    AST::ASTVec r;
    NullBackend nul;
    bool inc = false;
    auto b = build([&](SAST a) { r.emplace_back(std::move(a)); });
    NonGroundParser p(*b, nul, inc);
    Location loc("<block>", 1, 1, "<block>", 1, 1);
    IdVec ids;
    for (auto const &x : ps) { ids.emplace_back(loc, x.c_str()); }
    p.pushBlock(part, std::move(ids), text, log);
    p.parse(log);
    return r;
}
// adds a program by way of syntax trees
static void add(INongroundProgramBuilder &prg, std::string const &route, std::string const &part, std::vector<std::string> const &ps, std::string const &text, Logger &log) {
    auto trees = collect(text, part, ps, log);
    if (log.hasError()) { return; }
    if (route == "str") {
        std::string t;
        for (auto &x : trees) { t += str(*x) + "\n"; }
        trees = collect(t, "base", {}, log);
        // what has been printed is printed again
        std::string u;
        size_t n = 0;
        for (auto &x : trees) { if (n++ > 0) { u += str(*x) + "\n"; } }
        if (t != u) { throw std::logic_error("printed as " + t + " and as " + u); }
    }
    for (auto &x : trees) {
        if (route == "copy") {
            auto before = str(*x);
            auto y = x->deepcopy();
            auto z = x->copy();
            if (!same(*x, *y) || !same(*x, *z) || !same(*y, *z)) { throw std::logic_error("copies differ from what they are copies of"); }
            x = y;
            if (str(*x) != before) { throw std::logic_error("a copy is printed differently"); }
        }
        if (route == "unpool") {
            auto before = str(*x);
            auto pool = unpool(x);
            if (str(*x) != before) { throw std::logic_error("unpooling changes the tree"); }
            if (pool) {
                for (auto &y : *pool) {
                    SAST w = y;
                    auto again = unpool(w);
                    if (again && (again->size() != 1 || !same(*again->front(), *y))) { throw std::logic_error("pools are left"); }
                    parse(prg, log, *y);
                }
                continue;
            }
        }
        parse(prg, log, *x);
    }
}
} // namespace gr07

OP(ast_parse) {
    using namespace gr07;
    Logger log{[](Warnings, char const *) {}, 20};
    json trees = json::array(), texts = json::array(), locs = json::array();
    bool reb = true, again = true;
    auto c = collect(s["text"], "base", {}, log);
    for (auto &x : c) {
        trees.push_back(dump(*x));
        texts.push_back(str(*x));
        if (texts.size() > 1) {
            auto const &l = mpark::get<Location>(x->value(clingo_ast_attribute_location));
            locs.push_back({l.beginLine, l.beginColumn, l.endLine, l.endColumn});
        }
        auto y = x->deepcopy();
        reb = reb && same(*x, *y) && dump(*y) == trees.back() && str(*y) == texts.back();
        auto z = collect(texts.back(), "base", {}, log);
        again = again && same(*z.back(), *x);
        // without pools
        auto w = x->deepcopy();
        if (auto pool = unpool(w)) {
            for (auto &u : *pool) { again = again && no_pool(dump(*u)); }
        }
        else { again = again && no_pool(trees.back()); }
        reb = reb && dump(*w) == trees.back();
    }
    // equal or in one order
    for (size_t i = 0; i < c.size(); ++i) {
        for (size_t j = 0; j < i; ++j) {
            AST const &a = *c[i], &b = *c[j];
            bool eq = trees[i] == trees[j];
            reb = reb && (a == b) == eq && (b == a) == eq && ((a < b) + (b < a)) == (eq ? 0 : 1);
        }
    }
    return {{"trees", trees}, {"texts", texts}, {"locs", locs}, {"rebuilt", reb}, {"again", again}};
}
