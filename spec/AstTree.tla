------------------------------ MODULE AstTree ------------------------------
(***************************************************************************)
(* Syntax trees: a node is <<type, attribute values in constructor order>>  *)
(* (without the location).  Schema gives the name and the kind of every     *)
(* attribute, Text the text of a tree.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

\* kinds: i number, b flag, e: enumeration, s string, y symbol, n node, o optional node, N nodes, S strings
Schema == [
 Id |-> <<<<"name","s">>>>, Variable |-> <<<<"name","s">>>>, SymbolicTerm |-> <<<<"symbol","y">>>>,
 UnaryOperation |-> <<<<"operator_type","e:UnaryOperator">>, <<"argument","n">>>>,
 BinaryOperation |-> <<<<"operator_type","e:BinaryOperator">>, <<"left","n">>, <<"right","n">>>>,
 Interval |-> <<<<"left","n">>, <<"right","n">>>>,
 Function |-> <<<<"name","s">>, <<"arguments","N">>, <<"external","b">>>>,
 Pool |-> <<<<"arguments","N">>>>,
 BooleanConstant |-> <<<<"value","b">>>>, SymbolicAtom |-> <<<<"symbol","n">>>>,
 Comparison |-> <<<<"term","n">>, <<"guards","N">>>>,
 Guard |-> <<<<"comparison","e:ComparisonOperator">>, <<"term","n">>>>,
 ConditionalLiteral |-> <<<<"literal","n">>, <<"condition","N">>>>,
 Aggregate |-> <<<<"left_guard","o">>, <<"elements","N">>, <<"right_guard","o">>>>,
 BodyAggregateElement |-> <<<<"terms","N">>, <<"condition","N">>>>,
 BodyAggregate |-> <<<<"left_guard","o">>, <<"function","e:AggregateFunction">>, <<"elements","N">>, <<"right_guard","o">>>>,
 HeadAggregateElement |-> <<<<"terms","N">>, <<"condition","n">>>>,
 HeadAggregate |-> <<<<"left_guard","o">>, <<"function","e:AggregateFunction">>, <<"elements","N">>, <<"right_guard","o">>>>,
 Disjunction |-> <<<<"elements","N">>>>,
 TheorySequence |-> <<<<"sequence_type","e:TheorySequenceType">>, <<"terms","N">>>>,
 TheoryFunction |-> <<<<"name","s">>, <<"arguments","N">>>>,
 TheoryUnparsedTermElement |-> <<<<"operators","S">>, <<"term","n">>>>,
 TheoryUnparsedTerm |-> <<<<"elements","N">>>>,
 TheoryGuard |-> <<<<"operator_name","s">>, <<"term","n">>>>,
 TheoryAtomElement |-> <<<<"terms","N">>, <<"condition","N">>>>,
 TheoryAtom |-> <<<<"term","n">>, <<"elements","N">>, <<"guard","o">>>>,
 Literal |-> <<<<"sign","e:Sign">>, <<"atom","n">>>>,
 TheoryOperatorDefinition |-> <<<<"name","s">>, <<"priority","i">>, <<"operator_type","e:TheoryOperatorType">>>>,
 TheoryTermDefinition |-> <<<<"name","s">>, <<"operators","N">>>>,
 TheoryGuardDefinition |-> <<<<"operators","S">>, <<"term","s">>>>,
 TheoryAtomDefinition |-> <<<<"atom_type","e:TheoryAtomType">>, <<"name","s">>, <<"arity","i">>, <<"term","s">>, <<"guard","o">>>>,
 Rule |-> <<<<"head","n">>, <<"body","N">>>>,
 Definition |-> <<<<"name","s">>, <<"value","n">>, <<"is_default","b">>>>,
 ShowSignature |-> <<<<"name","s">>, <<"arity","i">>, <<"positive","b">>>>,
 ShowTerm |-> <<<<"term","n">>, <<"body","N">>>>,
 Minimize |-> <<<<"weight","n">>, <<"priority","n">>, <<"terms","N">>, <<"body","N">>>>,
 Script |-> <<<<"name","s">>, <<"code","s">>>>,
 Program |-> <<<<"name","s">>, <<"parameters","N">>>>,
 External |-> <<<<"atom","n">>, <<"body","N">>, <<"external_type","n">>>>,
 Edge |-> <<<<"node_u","n">>, <<"node_v","n">>, <<"body","N">>>>,
 Heuristic |-> <<<<"atom","n">>, <<"body","N">>, <<"bias","n">>, <<"priority","n">>, <<"modifier","n">>>>,
 ProjectAtom |-> <<<<"atom","n">>, <<"body","N">>>>,
 ProjectSignature |-> <<<<"name","s">>, <<"arity","i">>, <<"positive","b">>>>,
 Defined |-> <<<<"name","s">>, <<"arity","i">>, <<"positive","b">>>>,
 TheoryDefinition |-> <<<<"name","s">>, <<"terms","N">>, <<"atoms","N">>>>]

\* the types in their order
Types == <<"Id", "Variable", "SymbolicTerm", "UnaryOperation", "BinaryOperation", "Interval", "Function", "Pool", "BooleanConstant", "SymbolicAtom",
  "Comparison", "Guard", "ConditionalLiteral", "Aggregate", "BodyAggregateElement", "BodyAggregate", "HeadAggregateElement", "HeadAggregate",
  "Disjunction", "TheorySequence", "TheoryFunction", "TheoryUnparsedTermElement", "TheoryUnparsedTerm", "TheoryGuard", "TheoryAtomElement",
  "TheoryAtom", "Literal", "TheoryOperatorDefinition", "TheoryTermDefinition", "TheoryGuardDefinition", "TheoryAtomDefinition", "Rule",
  "Definition", "ShowSignature", "ShowTerm", "Minimize", "Script", "Program", "External", "Edge", "Heuristic", "ProjectAtom",
  "ProjectSignature", "Defined", "TheoryDefinition">>
NoLocation == {"BooleanConstant", "SymbolicAtom", "Comparison", "Guard", "BodyAggregateElement", "HeadAggregateElement",
               "TheoryUnparsedTermElement", "TheoryGuard", "TheoryAtomElement", "TheoryGuardDefinition"}
Enums == [UnaryOperator |-> <<"Minus", "Negation", "Absolute">>,
          BinaryOperator |-> <<"XOr", "Or", "And", "Plus", "Minus", "Multiplication", "Division", "Modulo", "Power">>,
          ComparisonOperator |-> <<"GreaterThan", "LessThan", "LessEqual", "GreaterEqual", "NotEqual", "Equal">>,
          AggregateFunction |-> <<"Count", "Sum", "SumPlus", "Min", "Max">>,
          TheorySequenceType |-> <<"Tuple", "List", "Set">>,
          Sign |-> <<"NoSign", "Negation", "DoubleNegation">>,
          TheoryOperatorType |-> <<"Unary", "BinaryLeft", "BinaryRight">>,
          TheoryAtomType |-> <<"Head", "Body", "Any", "Directive">>]

OpStr == [XOr |-> "^", Or |-> "?", And |-> "&", Plus |-> "+", Minus |-> "-", Multiplication |-> "*", Division |-> "/", Modulo |-> "\\", Power |-> "**"]
CmpStr == [GreaterThan |-> ">", LessThan |-> "<", LessEqual |-> "<=", GreaterEqual |-> ">=", NotEqual |-> "!=", Equal |-> "="]
SignStr == [NoSign |-> "", Negation |-> "not ", DoubleNegation |-> "not not "]
AggStr == [Count |-> "#count", Sum |-> "#sum", SumPlus |-> "#sum+", Min |-> "#min", Max |-> "#max"]
TOpStr == [Unary |-> "unary", BinaryLeft |-> "binary, left", BinaryRight |-> "binary, right"]
TAtStr == [Head |-> "head", Body |-> "body", Any |-> "any", Directive |-> "directive"]

RECURSIVE JoinText(_, _)
JoinText(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o JoinText(Tail(s), sep)

RECURSIVE Text(_)
Texts(l, sep) == JoinText([i \in 1..Len(l) |-> Text(l[i])], sep)
\* with something before and after unless empty
Some(l, pre, sep, post) == IF l = <<>> THEN "" ELSE pre \o Texts(l, sep) \o post
BodyText(l, pre) == (IF l = <<>> THEN "" ELSE pre) \o Texts(l, "; ") \o "."
LeftG(g) == IF g = <<>> THEN "" ELSE Text(g[1][3]) \o " " \o CmpStr[g[1][2]] \o " "
RightG(g) == IF g = <<>> THEN "" ELSE " " \o CmpStr[g[1][2]] \o " " \o Text(g[1][3])
Braces(l) == "{" \o Some(l, " ", "; ", "") \o " }"
Neg(p) == IF p = 1 THEN "" ELSE "-"
Args(t, sep) == Texts(t[3], sep) \o (IF t[2] = "" /\ Len(t[3]) = 1 THEN "," ELSE "")
Text(t) ==
    CASE t[1] \in {"Id", "Variable", "SymbolicTerm"} -> t[2]
      [] t[1] = "UnaryOperation" -> (CASE t[2] = "Minus" -> "-" [] t[2] = "Negation" -> "~" [] OTHER -> "|") \o Text(t[3]) \o (IF t[2] = "Absolute" THEN "|" ELSE "")
      [] t[1] = "BinaryOperation" -> "(" \o Text(t[3]) \o OpStr[t[2]] \o Text(t[4]) \o ")"
      [] t[1] = "Interval" -> "(" \o Text(t[2]) \o ".." \o Text(t[3]) \o ")"
      [] t[1] = "Function" -> (IF t[4] = 1 THEN "@" ELSE "") \o t[2] \o (IF t[3] = <<>> /\ t[2] # "" THEN "" ELSE "(" \o Args(t, ",") \o ")")
      [] t[1] = "Pool" -> IF \A i \in 1..Len(t[2]) : t[2][i][1] = "Function" /\ t[2][i][2] = t[2][1][2] /\ t[2][i][4] = t[2][1][4]
                          THEN (IF t[2][1][4] = 1 THEN "@" ELSE "") \o t[2][1][2] \o "(" \o JoinText([i \in 1..Len(t[2]) |-> Args(t[2][i], ",")], ";") \o ")"
                          ELSE "(" \o Texts(t[2], ";") \o ")"
      [] t[1] = "BooleanConstant" -> IF t[2] = 1 THEN "#true" ELSE "#false"
      [] t[1] = "SymbolicAtom" -> Text(t[2])
      [] t[1] = "Comparison" -> Text(t[2]) \o Texts(t[3], "")
      [] t[1] = "Guard" -> " " \o CmpStr[t[2]] \o " " \o Text(t[3])
      [] t[1] = "Literal" -> SignStr[t[2]] \o Text(t[3])
      [] t[1] = "ConditionalLiteral" -> Text(t[2]) \o Some(t[3], ": ", ", ", "")
      [] t[1] = "Aggregate" -> LeftG(t[2]) \o Braces(t[3]) \o RightG(t[4])
      [] t[1] \in {"BodyAggregate", "HeadAggregate"} -> LeftG(t[2]) \o AggStr[t[3]] \o " " \o Braces(t[4]) \o RightG(t[5])
      [] t[1] \in {"BodyAggregateElement", "TheoryAtomElement"} -> Texts(t[2], ",") \o Some(t[3], ": ", ", ", "")
      [] t[1] = "HeadAggregateElement" -> Texts(t[2], ",") \o ": " \o Text(t[3])
      [] t[1] = "Disjunction" -> Texts(t[2], "; ")
      [] t[1] = "TheorySequence" -> (CASE t[2] = "Tuple" -> "(" [] t[2] = "List" -> "[" [] OTHER -> "{") \o Texts(t[3], ",")
                                    \o (IF t[2] = "Tuple" /\ Len(t[3]) = 1 THEN "," ELSE "") \o (CASE t[2] = "Tuple" -> ")" [] t[2] = "List" -> "]" [] OTHER -> "}")
      [] t[1] = "TheoryFunction" -> t[2] \o Some(t[3], "(", ",", ")")
      [] t[1] = "TheoryUnparsedTermElement" -> JoinText(t[2], " ") \o (IF t[2] = <<>> THEN "" ELSE " ") \o Text(t[3])
      [] t[1] = "TheoryUnparsedTerm" -> IF Len(t[2]) = 1 /\ t[2][1][2] = <<>> THEN Texts(t[2], " ") ELSE "(" \o Texts(t[2], " ") \o ")"
      [] t[1] = "TheoryGuard" -> t[2] \o " " \o Text(t[3])
      [] t[1] = "TheoryAtom" -> "&" \o Text(t[2]) \o " " \o Braces(t[3]) \o (IF t[4] = <<>> THEN "" ELSE " " \o Text(t[4][1]))
      [] t[1] = "TheoryOperatorDefinition" -> t[2] \o " : " \o ToString(t[3]) \o ", " \o TOpStr[t[4]]
      [] t[1] = "TheoryTermDefinition" -> t[2] \o " {\n  " \o Texts(t[3], ";\n") \o "\n}"
      [] t[1] = "TheoryGuardDefinition" -> "{" \o (IF t[2] = <<>> THEN "" ELSE " ") \o JoinText(t[2], ", ") \o " }, " \o t[3]
      [] t[1] = "TheoryAtomDefinition" -> "&" \o t[3] \o "/" \o ToString(t[4]) \o ": " \o t[5] \o (IF t[6] = <<>> THEN "" ELSE ", " \o Text(t[6][1])) \o ", " \o TAtStr[t[2]]
      [] t[1] = "TheoryDefinition" -> "#theory " \o t[2] \o " {\n"
            \o JoinText([i \in 1..Len(t[3]) |-> "  " \o t[3][i][2] \o " {\n    " \o Texts(t[3][i][3], ";\n    ") \o "\n  }"]
                        \o [i \in 1..Len(t[4]) |-> "  " \o Text(t[4][i])], ";\n")
            \o (IF t[3] = <<>> /\ t[4] = <<>> THEN "" ELSE "\n") \o "}."
      [] t[1] = "Rule" -> Text(t[2]) \o BodyText(t[3], " :- ")
      [] t[1] = "Definition" -> "#const " \o t[2] \o " = " \o Text(t[3]) \o "." \o (IF t[4] = 1 THEN "" ELSE " [override]")
      [] t[1] = "ShowSignature" -> "#show " \o Neg(t[4]) \o t[2] \o "/" \o ToString(t[3]) \o "."
      [] t[1] = "ProjectSignature" -> "#project " \o Neg(t[4]) \o t[2] \o "/" \o ToString(t[3]) \o "."
      [] t[1] = "Defined" -> "#defined " \o Neg(t[4]) \o t[2] \o "/" \o ToString(t[3]) \o "."
      [] t[1] = "ShowTerm" -> "#show " \o Text(t[2]) \o BodyText(t[3], " : ")
      [] t[1] = "Minimize" -> ":~ " \o BodyText(t[5], "") \o " [" \o Text(t[2]) \o "@" \o Text(t[3]) \o Some(t[4], ",", ",", "") \o "]"
      [] t[1] = "Script" -> "#script (" \o t[2] \o ")" \o t[3] \o "#end."
      [] t[1] = "Program" -> "#program " \o t[2] \o Some(t[3], "(", ", ", ")") \o "."
      [] t[1] = "External" -> "#external " \o Text(t[2]) \o BodyText(t[3], " : ") \o " [" \o Text(t[4]) \o "]"
      [] t[1] = "Edge" -> "#edge (" \o Text(t[2]) \o "," \o Text(t[3]) \o ")" \o BodyText(t[4], " : ")
      [] t[1] = "Heuristic" -> "#heuristic " \o Text(t[2]) \o BodyText(t[3], " : ") \o " [" \o Text(t[4]) \o "@" \o Text(t[5]) \o "," \o Text(t[6]) \o "]"
      [] t[1] = "ProjectAtom" -> "#project " \o Text(t[2]) \o BodyText(t[3], " : ")

------------------------------------------------------------------------------
(* structural order: the type, then the attributes in order *)
Idx(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x
EnumOf(k) == SubSeq(k, 3, Len(k))
=============================================================================
