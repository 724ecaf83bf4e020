------------------------------- MODULE Ifeval -------------------------------
(* ifeval comparisons: every pair of operands over every operator.          *)
(* An operand has a type and a rank within the type; numbers share one scale *)
(* (hundredths).  Values of different types are unequal and unordered.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Wide
VARIABLES l, op, r, sp, phase
vars == <<l, op, r, sp, phase>>

V(s, ty, o) == [s |-> s, ty |-> ty, o |-> o]
Core == { V("1", "num", 100), V("2", "num", 200), V("10", "num", 1000), V("-3", "num", -300), V("1.0", "num", 100), V("1.5", "num", 150),
          V("-0.5", "num", -50), V("'a'", "str", 3), V("\"a\"", "str", 3), V("\"b\"", "str", 6), V("''", "str", 0), V("true", "bool", 1), V("false", "bool", 0),
          V("{one}", "num", 100), V("{half}", "num", 50), V("\"{one}\"", "str", 1), V("'{word}'", "str", 4), V("{yes}", "bool", 1), V("{nope}", "nil", 0) }
More == { V("'1'", "str", 1), V("\"10\"", "str", 2), V("'ab'", "str", 4), V("\"a b\"", "str", 3), V("0", "num", 0), V("007", "num", 700), V("word", "num", 0),
          V("\"<\"", "str", 0), V("{word}", "num", 0), V("100000000", "num", 100000), V("'{nope}'", "str", 0), V("\"B\"", "str", 0),
          V("\"a \"", "str", 0), V("' a'", "str", 0), V("\" \"", "str", 0), V("' {one}'", "str", 0), V("\"'a'\"", "str", 0), V("\"true\"", "str", 0) }
\* ranks of strings by byte order
StrRank(s) == CASE s \in {"''", "'{nope}'"} -> 0
                [] s = "\" \"" -> 1 [] s = "' {one}'" -> 2 [] s = "' a'" -> 3 [] s = "\"'a'\"" -> 4
                [] s \in {"'1'", "\"{one}\""} -> 11 [] s = "\"10\"" -> 12 [] s = "\"<\"" -> 13
                [] s = "\"B\"" -> 14 [] s \in {"'a'", "\"a\""} -> 15 [] s = "\"a \"" -> 16 [] s = "\"a b\"" -> 17 [] s \in {"'ab'", "'{word}'"} -> 18
                [] s = "\"b\"" -> 19 [] s = "\"true\"" -> 20
Big(v) == IF v.s = "100000000" THEN 1000000000 ELSE v.o
Rank(v) == IF v.ty = "str" THEN StrRank(v.s) ELSE Big(v)
Vals == IF Wide THEN Core \cup More ELSE Core
Ops == {"==", "!=", "<", "<=", ">", ">="}

Holds(a, o, b) ==
  CASE o = "==" -> a.ty = b.ty /\ Rank(a) = Rank(b)
    [] o = "!=" -> ~(a.ty = b.ty /\ Rank(a) = Rank(b))
    [] OTHER -> /\ a.ty = b.ty /\ a.ty \in {"num", "str"}
                /\ CASE o = "<" -> Rank(a) < Rank(b) [] o = "<=" -> Rank(a) <= Rank(b)
                     [] o = ">" -> Rank(a) > Rank(b) [] o = ">=" -> Rank(a) >= Rank(b)

Init == phase = "pick" /\ l \in Vals /\ op = "" /\ r \in Vals /\ sp = ""
Next == phase = "pick" /\ phase' = "done" /\ op' \in Ops /\ sp' \in {" ", ""} /\ UNCHANGED <<l, r>>

\* an operator inside a quoted operand is not the operator of the expression
\* (the first one found is), so such operands only stand on the right
LhsOK == l.s # "\"<\""
Complement == phase = "done" => Holds(l, "==", r) # Holds(l, "!=", r)
Flip == phase = "done" => Holds(l, "<", r) = Holds(r, ">", l) /\ Holds(l, "<=", r) = Holds(r, ">=", l)
Split == phase = "done" /\ l.ty = r.ty /\ l.ty \in {"num", "str"} => Holds(l, "<=", r) = (Holds(l, "<", r) \/ Holds(l, "==", r))

Case ==
  LET e == "ifeval::[" \o l.s \o sp \o op \o sp \o r.s \o "]"
      h == Holds(l, op, r) IN
  [ lines |-> <<":one: 1", ":half: 0.5", ":word: ab", ":yes: true", "", "start", "", e, "in", "endif::[]", "", "ifdef::one[]", e, "in2", "endif::[]", "endif::one[]", "", "end">>,
    also |-> <<"crlf">>,
    expect |-> [ words |-> <<"start">> \o (IF h THEN <<"in", "in2">> ELSE <<>>) \o <<"end">>, diags |-> <<>> ] ]
Emit == phase = "done" /\ LhsOK => PrintT("@@" \o ToJson(Case))
=============================================================================
