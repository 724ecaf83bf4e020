----------------------------- MODULE LineSelect -----------------------------
(* include::file[lines=..., indent=n]: the lines of a file chosen by ranges, *)
(* and their indentation, in a paragraph and in a listing.                   *)
(* The file is written line by line, then read line by line.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLines, MaxSel, Hi, Indents, NewIndents, Encs
VARIABLES file,   \* sequence of indentations; 99 = a blank line
          sel,    \* sequence of [lo, hi]; hi = 0: open end; hi = 99: a single line; lo = 0: not a range
          want,   \* requested indentation, 99 = none
          enc, i, out, phase
vars == <<file, sel, want, enc, i, out, phase>>

Ranges == {[lo |-> a, hi |-> b] : a \in 1..Hi, b \in {0, 98, 99} \cup (1..Hi)} \cup {[lo |-> 0, hi |-> 0]}
Init == /\ file = <<>> /\ \E n \in 1..MaxSel : sel \in [1..n -> Ranges]
        /\ want \in NewIndents /\ enc \in Encs
        /\ i = 1 /\ out = <<>> /\ phase = "write"
Write == /\ phase = "write" /\ Len(file) < MaxLines
         /\ \E k \in Indents : file' = Append(file, k)
         /\ UNCHANGED <<sel, want, enc, i, out, phase>>
Start == phase = "write" /\ file # <<>> /\ (\E n \in DOMAIN file : file[n] # 99) /\ phase' = "read" /\ UNCHANGED <<file, sel, want, enc, i, out>>

Valid(r) == r.lo > 0 /\ (r.hi \in {0, 98, 99} \/ r.lo <= r.hi)
Covers(r, n) == Valid(r) /\ r.lo <= n /\ CASE r.hi \in {0, 98} -> TRUE [] r.hi = 99 -> n = r.lo [] OTHER -> n <= r.hi
NoSelection == \A j \in DOMAIN sel : ~Valid(sel[j])
Read == /\ phase = "read"
        /\ IF i > Len(file) THEN phase' = "done" /\ UNCHANGED <<i, out>>
           ELSE /\ i' = i + 1 /\ phase' = phase
                /\ out' = IF NoSelection \/ (\E j \in DOMAIN sel : Covers(sel[j], i)) THEN Append(out, i) ELSE out
        /\ UNCHANGED <<file, sel, want, enc>>
Next == Write \/ Start \/ Read
----------------------------------------------------------------------------
\* indentation of the selected lines
Solid == {n \in DOMAIN out : file[out[n]] # 99}
Least == LET S == {file[out[n]] : n \in Solid} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : m <= x
Shift(k) == IF want = 99 THEN k ELSE k - Least + want
\* in document order, each line at most once, whatever the order of the ranges
Ordered == phase = "done" => \A m, n \in DOMAIN out : m < n => out[m] < out[n]
\* relative indentation is kept and the least indented line is where it was asked to be
Relative == phase = "done" /\ want # 99 /\ Solid # {} =>
              (\E n \in Solid : Shift(file[out[n]]) = want) /\ (\A n \in Solid : Shift(file[out[n]]) >= want)
----------------------------------------------------------------------------
Word(n) == "t" \o ToString(n)
Sp(k) == CASE k = 0 -> "" [] k = 1 -> " " [] k = 2 -> "  " [] k = 3 -> "   " [] k = 4 -> "    " [] k = 5 -> "     " [] k = 6 -> "      " [] OTHER -> "       "
Show(r) == IF r.lo = 0 THEN "x" ELSE IF r.hi = 99 THEN ToString(r.lo)
           ELSE ToString(r.lo) \o ".." \o (IF r.hi = 98 THEN "-1" ELSE IF r.hi = 0 THEN "" ELSE ToString(r.hi))
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE Show(Head(q)) \o (IF Len(q) = 1 THEN "" ELSE sep \o Join(Tail(q), sep))
\* a listing drops blank lines at its ends
First == IF Solid = {} THEN 1 ELSE CHOOSE n \in Solid : \A m \in Solid : n <= m
Last == IF Solid = {} THEN 0 ELSE CHOOSE n \in Solid : \A m \in Solid : n >= m
RECURSIVE Text(_)
Text(n) == IF n > Last THEN "" ELSE
           (IF file[out[n]] = 99 THEN "" ELSE Sp(Shift(file[out[n]])) \o Word(out[n])) \o (IF n = Last THEN "" ELSE "\n" \o Text(n + 1))
\* the blank lines after the last line of text
RECURSIVE NL(_)
NL(k) == IF k = 0 THEN "" ELSE "\n" \o NL(k - 1)
BlankTail == NL(Len(out) - Last)
IsText(n) == file[n] # 99
Words == [n \in DOMAIN SelectSeq(out, IsText) |-> Word(SelectSeq(out, IsText)[n])]
Glue(cur, w) == IF cur = "" THEN w ELSE cur \o " " \o w
RECURSIVE Paras(_, _, _)
Paras(n, done, cur) ==
  IF n > Len(out) THEN <<done, cur>>
  ELSE IF IsText(out[n]) THEN Paras(n + 1, done, Glue(cur, Word(out[n])))
  ELSE Paras(n + 1, IF cur = "" THEN done ELSE Append(done, cur), "")
Loose == LET p == Paras(1, <<>>, "") IN IF p[2] = "" THEN p[1] ELSE Append(p[1], p[2])
Tight == LET p == Paras(1, <<>>, "mid") IN Append(p[1], Glue(p[2], "end"))

Flat == \A n \in DOMAIN file : file[n] \in {0, 99}
Body == [n \in DOMAIN file |-> IF file[n] = 99 THEN "" ELSE Sp(file[n]) \o Word(n)]
At(sep, quote) == "lines=" \o quote \o Join(sel, sep) \o quote \o (IF want = 99 THEN "" ELSE ",indent=" \o ToString(want))
Rb(sep, quote) ==
  [ lines |-> <<"start", "", "----", "include::inc.rb[" \o At(sep, quote) \o "]", "----", "", "mid", "", "----", "include::inc.rb[" \o At(sep, quote) \o "]", "x", "----">>,
    files |-> << <<"/base/inc.rb", Body, enc>> >>, also |-> <<"crlf">>,
    expect |-> [ status |-> "ok", ndiags |-> 0,
                 outline |-> << <<"p", "start">>, <<"listing", Text(First)>>, <<"p", "mid">>,
                                <<"listing", IF Solid = {} THEN "x" ELSE Text(First) \o (IF Last < Len(out) THEN BlankTail ELSE "") \o "\nx">> >> ] ]
Adoc(sep, quote) ==
  LET inc == "include::inc.adoc[" \o At(sep, quote) \o "]" IN
  [ lines |-> <<"start", "", inc, "", "mid", inc, "end">>,
    files |-> << <<"/base/inc.adoc", Body, enc>> >>, also |-> <<"crlf">>,
    expect |-> [ status |-> "ok", ndiags |-> 0, paras |-> <<"start">> \o Loose \o Tight ] ]
Emit == phase = "done" =>
  /\ PrintT("@@" \o ToJson(Rb(";", ""))) /\ (Len(sel) > 1 => PrintT("@@" \o ToJson(Rb(",", "\""))))
  /\ (Flat /\ want \in {0, 99} => PrintT("@@" \o ToJson(Adoc(";", ""))))
=============================================================================
