"""Syntax trees (C13-C15)."""
import copy
import os
import tempfile
import clingo
from clingo import ast, parse_term, Control
from clingo.ast import AST, ASTSequence, ASTType, Location, Position, ProgramBuilder, StrSequence, Transformer, parse_files, parse_string

S = {
 "Id": "name:s", "Variable": "name:s", "SymbolicTerm": "symbol:y", "UnaryOperation": "operator_type:e:UnaryOperator argument:n",
 "BinaryOperation": "operator_type:e:BinaryOperator left:n right:n", "Interval": "left:n right:n", "Function": "name:s arguments:N external:b",
 "Pool": "arguments:N", "BooleanConstant": "value:b", "SymbolicAtom": "symbol:n", "Comparison": "term:n guards:N",
 "Guard": "comparison:e:ComparisonOperator term:n", "ConditionalLiteral": "literal:n condition:N",
 "Aggregate": "left_guard:o elements:N right_guard:o", "BodyAggregateElement": "terms:N condition:N",
 "BodyAggregate": "left_guard:o function:e:AggregateFunction elements:N right_guard:o", "HeadAggregateElement": "terms:N condition:n",
 "HeadAggregate": "left_guard:o function:e:AggregateFunction elements:N right_guard:o", "Disjunction": "elements:N",
 "TheorySequence": "sequence_type:e:TheorySequenceType terms:N", "TheoryFunction": "name:s arguments:N",
 "TheoryUnparsedTermElement": "operators:S term:n", "TheoryUnparsedTerm": "elements:N", "TheoryGuard": "operator_name:s term:n",
 "TheoryAtomElement": "terms:N condition:N", "TheoryAtom": "term:n elements:N guard:o", "Literal": "sign:e:Sign atom:n",
 "TheoryOperatorDefinition": "name:s priority:i operator_type:e:TheoryOperatorType", "TheoryTermDefinition": "name:s operators:N",
 "TheoryGuardDefinition": "operators:S term:s", "TheoryAtomDefinition": "atom_type:e:TheoryAtomType name:s arity:i term:s guard:o",
 "Rule": "head:n body:N", "Definition": "name:s value:n is_default:b", "ShowSignature": "name:s arity:i positive:b", "ShowTerm": "term:n body:N",
 "Minimize": "weight:n priority:n terms:N body:N", "Script": "name:s code:s", "Program": "name:s parameters:N",
 "External": "atom:n body:N external_type:n", "Edge": "node_u:n node_v:n body:N",
 "Heuristic": "atom:n body:N bias:n priority:n modifier:n", "ProjectAtom": "atom:n body:N", "ProjectSignature": "name:s arity:i positive:b",
 "Defined": "name:s arity:i positive:b", "TheoryDefinition": "name:s terms:N atoms:N"}
SCHEMA = {t: [tuple(x.split(":", 1)) for x in v.split()] for t, v in S.items()}
NOLOC = {"BooleanConstant", "SymbolicAtom", "Comparison", "Guard", "BodyAggregateElement", "HeadAggregateElement",
         "TheoryUnparsedTermElement", "TheoryGuard", "TheoryAtomElement", "TheoryGuardDefinition"}


# the installed engine numbers theory sequences differently than the headers of the repository
SWAP = {"List": "Set", "Set": "List"} if clingo.__version__ < "5.7" else {}


def enum(k, v):
    return getattr(getattr(ast, k), SWAP.get(v, v) if k == "TheorySequenceType" else v)


def enum_name(k, v):
    v = getattr(ast, k)(v).name
    return SWAP.get(v, v) if k == "TheorySequenceType" else v


def mkloc(l=None):
    f, b, e = l or ["<loc>", [1, 1], [1, 1]]
    return Location(Position(f, *b), Position(f, *e))


LOC = mkloc()


def value(k, v, opt=0):
    if k in "ib":
        return v
    if k[0] == "e":
        return enum(k[2:], v)
    if k == "s":
        return v
    if k == "y":
        return parse_term(v)
    if k == "n":
        return mknode(v, opt)
    if k == "o":
        return mknode(v[0], opt) if v else None
    if k == "N":
        r = [mknode(x, opt) for x in v]
    else:
        r = list(v)
    return tuple(r) if opt == 1 else r


def mknode(t, opt=0):
    """Construct a node through the constructor of its type."""
    vals = [value(k, v, opt) for (_, k), v in zip(SCHEMA[t[0]], t[1:])]
    if t[0] not in NOLOC:
        vals.insert(0, LOC)
    return getattr(ast, t[0])(*vals)


def dump(a):
    t = a.ast_type.name
    r = [t]
    for n, k in SCHEMA[t]:
        v = getattr(a, n)
        if k in "isb":
            assert type(v) is (str if k == "s" else int), (n, v)
        elif k[0] == "e":
            v = enum_name(k[2:], v)
        elif k == "y":
            v = str(v)
        elif k == "n":
            v = dump(v)
        elif k == "o":
            v = [] if v is None else [dump(v)]
        elif k == "N":
            assert isinstance(v, ASTSequence) and len(v) == len(list(v))
            v = [dump(x) for x in v]
        else:
            assert isinstance(v, StrSequence) and len(v) == len(list(v))
            v = list(v)
        r.append(v)
    return r


def collect(text, how="string"):
    ret = []
    if how == "string":
        parse_string(text, ret.append)
    elif how == "control":
        parse_string(text, ret.append, Control())
    else:
        fd, name = tempfile.mkstemp(suffix=".lp")
        try:
            with os.fdopen(fd, "w") as f:
                f.write(text)
            parse_files([name], ret.append)
        finally:
            os.unlink(name)
        for x in ret:
            assert x.location.begin.filename == x.location.end.filename == name, x.location
    return ret


def same(a, b):
    return a == b and hash(a) == hash(b) and not a < b and not b < a and a <= b and a >= b and str(a) == str(b) and len({a, b}) == 1


def locs(a):
    b, e = a.location.begin, a.location.end
    return [b.line, b.column, e.line, e.column]


def op_ast_parse(self, s):
    l = collect(s["text"], s["how"])
    trees = [dump(x) for x in l]
    if s["how"] == "string":
        assert all(x.location.begin.filename == "<string>" for x in l)
    reb = all(same(x, mknode(t, i % 2)) for i, (x, t) in enumerate(zip(l, trees)))
    again = [same(x, collect(str(x))[-1]) for x in l]
    return {"trees": trees, "texts": [str(x) for x in l], "locs": [locs(x) for x in l[1:]], "rebuilt": reb, "again": all(again)}


def op_ast_build(self, s):
    a, b = mknode(s["tree"]), mknode(s["tree"], 1)
    ok = a.keys() == s["keys"] and a.child_keys == [x for x in s["child"] if x]
    items = a.items()
    ok = ok and [x[0] for x in items] == s["keys"] and [repr(x[1]) for x in items] == [repr(x) for x in a.values()]
    ns = dict(vars(ast), ast=ast, Function=clingo.Function, Number=clingo.Number, String=clingo.String, Infimum=clingo.Infimum, Supremum=clingo.Supremum)
    try:
        getattr(a, "nokey")
        ok = False
    except AttributeError:
        pass
    try:
        a.nokey = 1
        ok = False
    except AttributeError:
        pass
    u = a.update(**{k: v for k, v in items})
    ok = ok and same(eval(repr(a), ns), a) and same(u, a) and a.update() is a and same(copy.copy(a), a) and same(copy.deepcopy(a), a)
    return {"tree": dump(a), "text": str(a), "same": same(a, b), "keys": ok}


class _Pass(Transformer):
    pass


def op_add_ast(self, s):
    """Add a program part as syntax trees."""
    text = "#program %s%s.\n%s" % (s["part"], "(%s)" % ",".join(s["params"]) if s["params"] else "", s["text"])
    f = s["form"]
    with ProgramBuilder(self.ctl) as b:
        if f == "ast":
            parse_string(text, b.add)
            return
        for x in collect(text):
            if f == "ast_built":
                x = mknode(dump(x))
            elif f == "ast_deep":
                x = copy.deepcopy(x)
            elif f == "ast_text":
                x = collect(str(x))[-1]
            elif f == "ast_update":
                x = x.update(**dict(x.items()))
            elif f == "ast_unpool":
                for y in x.unpool():
                    b.add(y)
                continue
            b.add(x)
