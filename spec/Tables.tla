-------------------------------- MODULE Tables --------------------------------
(* Tables: cells fill a grid.                                                 *)
(*                                                                            *)
(* The machine writes one cell per step and closes rows by counting: columns  *)
(* visited in the row, and columns taken in the rows to come by cells that    *)
(* span rows.  TLC checks that this puts every cell in the row where the      *)
(* first free position of the grid is (Agree), that cells do not overlap      *)
(* (Apart) and that closed rows are covered entirely (Full).  The delimited   *)
(* formats write the same grid in other ways.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS MaxLen,
          Formats,   \* psv sep nested csv csvattr dsv dsvattr tsv csvsep
          Cols,      \* names of column specifications, or implicit
          Opts,      \* "" header footer both noheader implicit
          Dups, Spans, Styles, Aligns, Contents, Gaps, Lead
VARIABLES fmt, col, opt, lead, n, visits, act, row, cells, rows, text, start
vars == <<fmt, col, opt, lead, n, visits, act, row, cells, rows, text, start>>
\* cells: what was placed; rows: rows[i] is the number of cells in closed row i; text: the lines; start: first row still on the first line

D == [s |-> "d", a |-> "left top"]
S(s, a) == [s |-> s, a |-> a]
ColsOf(c) == CASE c \in {"2", "2*", "imp2", "1,2", "2;1"} -> <<D, D>> [] c \in {"3", "3*", "imp3"} -> <<D, D, D>> [] c \in {"1", "imp1"} -> <<D>> [] c = "imp4" -> <<D, D, D, D>> [] c = "4*" -> <<D, D, D, D>>
               [] c = "1,e" -> <<D, S("e", "left top")>> [] c = "h,m,s" -> <<S("h", "left top"), S("m", "left top"), S("s", "left top")>> [] c = "l,a" -> <<S("l", "left top"), S("a", "left top")>>
               [] c = "2*^.>e" -> <<S("e", "center bottom"), S("e", "center bottom")>> [] c = ">,.^1s" -> <<S("d", "right top"), S("s", "left middle")>> [] c = "e,2*,~" -> <<S("e", "left top"), D, D, D>>
               [] c = "a,a" -> <<S("a", "left top"), S("a", "left top")>>
Implicit == col \in {"imp1", "imp2", "imp3", "imp4"}
Styled == col \in {"1,e", "h,m,s", "l,a", "2*^.>e", ">,.^1s", "e,2*,~", "a,a"}
N == Len(ColsOf(col))
Prefixed == fmt \in {"psv", "sep", "nested"}
HasHead == opt \in {"header", "both", "implicit"}
Sep == CASE fmt = "psv" -> "|" [] fmt = "sep" -> "\\u00a6" [] fmt = "nested" -> "!" [] fmt \in {"csv", "csvattr"} -> "," [] fmt \in {"dsv", "dsvattr"} -> ":" [] fmt = "tsv" -> "\\u0009" [] fmt = "csvsep" -> ";" [] fmt \in {"csvbar", "dsvbar"} -> "\\u00a6"
Delim == CASE fmt = "csv" -> ",===" [] fmt = "dsv" -> ":===" [] fmt = "nested" -> "!===" [] OTHER -> "|==="

Init ==
  /\ fmt \in Formats /\ col \in Cols /\ opt \in Opts /\ lead \in Lead
  /\ (lead => opt # "implicit")
  /\ n = 0 /\ visits = 0 /\ act = <<0, 0, 0, 0, 0, 0>> /\ row = 1 /\ cells = <<>> /\ rows = <<>> /\ text = <<>> /\ start = TRUE

W(i) == "w" \o ToString(i)
V(i) == "v" \o ToString(i)
\* what is written for a content, and the paragraphs it stands for
Src(c, i) == CASE c = "w" -> <<W(i)>> [] c = "esc" -> <<W(i) \o "\\" \o Sep \o "x">> [] c = "two" -> <<W(i), "", V(i)>> [] c = "lines" -> <<W(i), V(i)>>
               [] c = "empty" -> <<"">> [] c = "colon" -> <<W(i) \o ":x">> [] c = "comma" -> <<W(i) \o ", x">> [] c = "code" -> <<"y `" \o W(i) \o "\\" \o Sep \o "z`">>
               [] c = "attr" -> <<W(i) \o " {sp}x {sq}">> [] c = "bold" -> <<"y *" \o W(i) \o "*">> [] c = "digits" -> <<W(i) \o " 2+ 3* y">> [] c = "pad" -> <<"  " \o W(i) \o "  ">>
               [] c = "comment" -> <<W(i), "// note", V(i)>> [] c = "list" -> <<"* " \o W(i), "* " \o V(i)>> [] c = "below" -> <<"", W(i)>> [] c = "back" -> <<W(i) \o "\\x">>
               [] c = "quoted" -> <<"\"" \o W(i) \o Sep \o "x\"">> [] c = "quotes" -> <<"\"" \o W(i) \o " \"\"x\"\"\"">> [] c = "qlines" -> <<"\"" \o W(i), V(i) \o "\"">> [] c = "qtwo" -> <<"\"" \o W(i), "", V(i) \o "\"">> [] c = "qsep" -> <<"\"x " \o Sep \o W(i) \o "\"">>
Seen(c, i) == CASE c \in {"w", "pad", "below"} -> <<W(i)>> [] c = "esc" -> <<W(i) \o Sep \o "x">> [] c \in {"two", "qtwo"} -> <<W(i), V(i)>> [] c \in {"lines", "comment", "qlines"} -> <<W(i) \o " " \o V(i)>>
               [] c = "empty" -> <<>> [] c = "colon" -> <<W(i) \o ":x">> [] c = "comma" -> <<W(i) \o ", x">> [] c = "code" -> <<"y " \o W(i) \o Sep \o "z">> [] c = "attr" -> <<W(i) \o " " \o (IF fmt = "tsv" THEN "x" ELSE Sep \o "x") \o " \"q\"">> [] c = "bold" -> <<"y " \o W(i)>>
               [] c = "digits" -> <<W(i) \o " 2+ 3* y">> [] c = "list" -> <<W(i), V(i)>> [] c = "back" -> <<W(i) \o "\\x">> [] c = "quoted" -> <<W(i) \o (IF fmt = "tsv" THEN " " ELSE Sep) \o "x">> [] c = "qsep" -> <<"x " \o (IF fmt = "tsv" THEN "" ELSE Sep) \o W(i)>> [] c = "quotes" -> <<W(i) \o " \"x\"">>
OneLine(c) == c \notin {"two", "lines", "comment", "list", "below", "qlines", "qtwo"}

\* ---- the grid ---------------------------------------------------------------------
Spots(x) == {<<r, k>> : r \in x.row..(x.row + x.rs - 1), k \in x.col..(x.col + x.cs - 1)}
Taken == UNION {Spots(cells[i]) : i \in DOMAIN cells}
FreeCol(taken, r) == CHOOSE k \in 1..N : <<r, k>> \notin taken /\ \A j \in 1..(k - 1) : <<r, j>> \in taken

\* counting: visits in this row, act[1] columns of it taken from above
Close(v, a, r) == IF v + a[1] = N THEN [v |-> 0, a |-> [i \in 1..6 |-> IF i = 6 THEN 0 ELSE a[i + 1]], r |-> r + 1] ELSE [v |-> v, a |-> a, r |-> r]
RECURSIVE PlaceN(_, _, _)
\* place k copies; st = [v, a, r, cells, rows, ok]
PlaceN(st, k, proto) ==
  IF k = 0 \/ ~st.ok THEN st ELSE
  LET taken == UNION {Spots(st.cells[i]) : i \in DOMAIN st.cells}
      room == \E c \in 1..N : <<st.r, c>> \notin taken
      c == FreeCol(taken, st.r)
      x == [proto EXCEPT !.row = st.r, !.col = c]
      fits == room /\ c + proto.cs - 1 <= N /\ \A s \in Spots(x) : s \notin taken
      a2 == [i \in 1..6 |-> IF i >= 2 /\ i <= proto.rs THEN st.a[i] + proto.cs ELSE st.a[i]]
      cl == Close(st.v + proto.cs, a2, st.r)
      dst == [v |-> cl.v, a |-> cl.a, r |-> cl.r, cells |-> Append(st.cells, x), ok |-> fits /\ \A i \in 2..6 : a2[i] < N]
  IN PlaceN(IF fits THEN dst ELSE [st EXCEPT !.ok = FALSE], k - 1, proto)

Spec(dup, sp, al, sty) == (IF dup = 1 THEN "" ELSE ToString(dup) \o "*")
  \o (CASE sp = <<1, 1>> -> "" [] sp[2] = 1 -> ToString(sp[1]) \o "+" [] sp[1] = 1 -> "." \o ToString(sp[2]) \o "+" [] OTHER -> ToString(sp[1]) \o "." \o ToString(sp[2]) \o "+")
  \o al \o (IF sty = "none" THEN "" ELSE sty)
SpanOf(s) == CASE s = "" -> <<1, 1>> [] s = "2+" -> <<2, 1>> [] s = "3+" -> <<3, 1>> [] s = ".2+" -> <<1, 2>> [] s = ".3+" -> <<1, 3>> [] s = "2.2+" -> <<2, 2>> [] s = "2.3+" -> <<2, 3>> [] s = "3.2+" -> <<3, 2>>
AlignOf(a) == CASE a = "" -> "" [] a = "^" -> "center top" [] a = ".>" -> "left bottom" [] a = ">.^" -> "right middle" [] a = "<.>" -> "left bottom" [] a = "<" -> "left top"

Cell(dup, spn, sty, al, c, gap) ==
  LET sp == SpanOf(spn)
      proto == [row |-> 0, col |-> 0, cs |-> sp[1], rs |-> sp[2], sty |-> sty, al |-> AlignOf(al), c |-> c, i |-> n]
      st == PlaceN([v |-> visits, a |-> act, r |-> row, cells |-> cells, ok |-> TRUE], dup, proto)
      src == Src(c, n)
      first == Spec(dup, sp, al, sty) \o Sep \o src[1]
      new == text = <<>> \/ gap # "same"
      \* the row ended on the first line: a header is set off by a blank line
      gapped == IF gap = "blank" \/ (opt = "implicit" /\ row = 2 /\ visits = 0 /\ start) THEN <<"">> ELSE <<>>
  IN
  /\ Prefixed /\ st.ok /\ (IF gap = "same" /\ text # <<>> THEN text[Len(text)] # "" ELSE TRUE)
  /\ (Styled => sp = <<1, 1>>)
  /\ ((c = "list") = (IF sty = "a" THEN TRUE ELSE IF Styled /\ sty = "none" /\ dup = 1 /\ ~(HasHead /\ row = 1) THEN ColsOf(col)[st.cells[Len(st.cells)].col].s = "a" ELSE FALSE))
  /\ (IF Styled /\ dup > 1 /\ sty = "none" THEN \A i \in Len(cells)+1..Len(st.cells) : ColsOf(col)[st.cells[i].col].s # "a" ELSE TRUE)
  /\ (c = "attr" => sty \notin {"a", "l"} /\ col # "l,a") /\ (c = "comment" => sty # "l")
  \* literal cells keep their text
  /\ (c \in {"two", "lines", "pad", "bold", "code", "comment", "below"} => sty # "l" /\ col # "l,a")
  \* lines: with implicit columns the first row is the first line
  /\ (start /\ text # <<>> /\ (Implicit \/ opt = "implicit") => IF row = 1 THEN gap = "same" ELSE gap = "new")
  /\ (start /\ row = 1 /\ (Implicit \/ opt = "implicit") => OneLine(c) /\ st.r <= 2 /\ (st.r = 2 => st.v = 0))
  /\ (gap = "blank" => Len(text) >= 2 /\ (~start \/ row > 1) /\ ~(start /\ Len(text) = 1))
  \* header and footer rows keep to themselves
  /\ (HasHead /\ row = 1 => sp[2] = 1 /\ st.r <= 2 /\ (st.r = 2 => st.v = 0) /\ c \notin {"list", "two"})
  /\ text' = (IF new THEN text \o gapped \o <<first>> \o Tail(src) ELSE SubSeq(text, 1, Len(text) - 1) \o << text[Len(text)] \o " " \o first >> \o Tail(src))
  /\ start' = (start /\ (text = <<>> \/ gap = "same") /\ OneLine(c))
  /\ visits' = st.v /\ act' = st.a /\ row' = st.r /\ cells' = st.cells
  /\ UNCHANGED rows

\* the delimited formats: a row is a line
Value(c, gap) ==
  LET proto == [row |-> 0, col |-> 0, cs |-> 1, rs |-> 1, sty |-> "none", al |-> "", c |-> c, i |-> n]
      st == PlaceN([v |-> visits, a |-> act, r |-> row, cells |-> cells, ok |-> TRUE], 1, proto)
      src == Src(c, n)
      sep == IF gap = "blank" /\ visits # 0 THEN " " \o Sep \o " " ELSE Sep
      gapped == IF visits = 0 /\ row > 1 /\ (IF row = 2 THEN opt = "implicit" ELSE gap = "blank") THEN <<"">> ELSE <<>> IN
  /\ ~Prefixed /\ st.ok
  /\ c \in (IF fmt \in {"csv", "csvattr", "tsv", "csvsep", "csvbar"} THEN {"w", "empty", "quoted", "quotes", "qlines", "qtwo", "bold", "qsep", "attr"} ELSE {"w", "empty", "esc", "bold", "comma", "attr", "back"})
  \* white space at the end of a line is no value
  /\ (fmt = "tsv" /\ c = "empty" => st.v # 0)
  \* quotes must touch the separators; blank space is no tab
  /\ (gap = "blank" /\ visits # 0 => fmt # "tsv" /\ c \notin {"quoted", "quotes", "qlines", "qtwo", "qsep"} /\ cells[Len(cells)].c \notin {"quoted", "quotes", "qlines", "qtwo", "qsep"})
  /\ (row = 1 => c \notin {"qlines", "qtwo"})
  /\ (N = 1 => c # "empty")
  /\ gap # "same"
  /\ text' = (IF visits = 0 THEN text \o gapped \o src ELSE SubSeq(text, 1, Len(text) - 1) \o << text[Len(text)] \o sep \o src[1] >> \o Tail(src))
  /\ visits' = st.v /\ act' = st.a /\ row' = st.r /\ cells' = st.cells
  /\ UNCHANGED <<rows, start>>

Step ==
  \/ \E d \in Dups, sp \in Spans, s \in Styles, a \in Aligns, c \in Contents, g \in Gaps : Cell(d, sp, s, a, c, g)
  \/ \E c \in Contents, g \in Gaps : Value(c, g)
Next == n < MaxLen /\ n' = n + 1 /\ UNCHANGED <<fmt, col, opt, lead>> /\ Step
\* the same, some of the possible steps at a time: for random behaviours
Some(k, x) == RandomSubset(IF Cardinality(x) < k THEN Cardinality(x) ELSE k, x)
StepSome ==
  \/ \E d \in {1} \cup Some(1, Dups), sp \in {""} \cup Some(2, Spans), s \in {"none"} \cup Some(1, Styles), a \in Some(1, Aligns), c \in Some(3, Contents), g \in Some(2, Gaps) : Cell(d, sp, s, a, c, g)
  \/ \E c \in Contents, g \in Gaps : Value(c, g)
NextSome == n < MaxLen /\ n' = n + 1 /\ UNCHANGED <<fmt, col, opt, lead>> /\ StepSome

\* ---- properties ----------------------------------------------------------------------
Apart == \A i, j \in DOMAIN cells : i # j => Spots(cells[i]) \cap Spots(cells[j]) = {}
Full == \A r \in 1..(row - 1) : \A k \in 1..N : <<r, k>> \in Taken
\* the first free position of the grid, row by row
Before(s, t) == s[1] < t[1] \/ (s[1] = t[1] /\ s[2] < t[2])
Agree == \A i \in DOMAIN cells : LET above == UNION {Spots(cells[j]) : j \in 1..(i - 1)} IN
           /\ <<cells[i].row, cells[i].col>> \notin above
           /\ \A r \in 1..cells[i].row, k \in 1..N : Before(<<r, k>>, <<cells[i].row, cells[i].col>>) => <<r, k>> \in above
InGrid == \A s \in Taken : s[2] <= N

\* ---- the table ------------------------------------------------------------------------
Style(x) == IF HasHead /\ x.row = 1 THEN "d" ELSE IF x.sty # "none" THEN x.sty ELSE ColsOf(col)[x.col].s
Shown(x) == LET s == Style(x)
                para == Seen(x.c, x.i)
                \* there is a block in a literal cell, even if it's empty
                body == IF s = "l" /\ para = <<>> THEN <<"">> ELSE para IN
            << IF (HasHead /\ x.row = 1) \/ s = "h" THEN "th" ELSE "td", x.cs, x.rs,
               IF s = "h" \/ body = <<>> THEN "d" ELSE s, IF x.al # "" THEN x.al ELSE ColsOf(col)[x.col].a, body >>
RECURSIVE Asc(_)
Asc(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Asc(s \ {m})
RowOf(r) == LET is == Asc({i \in DOMAIN cells : cells[i].row = r}) IN [k \in DOMAIN is |-> Shown(cells[is[k]])]
Last == IF visits = 0 THEN row - 1 ELSE row
HasFoot == opt \in {"footer", "both"} /\ Last > (IF HasHead THEN 1 ELSE 0)
BodyFrom == IF HasHead THEN 2 ELSE 1
BodyTo == IF HasFoot THEN Last - 1 ELSE Last
Grid == (IF HasHead THEN << <<"thead", << RowOf(1) >>>> >> ELSE <<>>)
        \o (IF BodyTo >= BodyFrom THEN << <<"tbody", [r \in 1..(BodyTo - BodyFrom + 1) |-> RowOf(r + BodyFrom - 1)]>> >> ELSE <<>>)
        \o (IF HasFoot THEN << <<"tfoot", << RowOf(Last) >>>> >> ELSE <<>>)
Attrs == LET c == CASE Implicit -> "" [] col \in {"1", "2", "3"} -> "cols=" \o col [] OTHER -> "cols=\"" \o (CASE col = "e,2*,~" -> "e,2*,~" [] OTHER -> col) \o "\""
             f == CASE fmt = "csvattr" -> "format=csv" [] fmt = "dsvattr" -> "format=dsv" [] fmt = "tsv" -> "format=tsv" [] fmt = "csvsep" -> "format=csv,separator=;" [] fmt = "csvbar" -> "format=csv,separator=\\u00a6" [] fmt = "dsvbar" -> "format=dsv,separator=\\u00a6" [] fmt = "sep" -> "separator=\\u00a6" [] OTHER -> ""
             o == CASE opt = "header" -> "%header" [] opt = "footer" -> "%footer" [] opt = "both" -> "%header%footer" [] opt = "noheader" -> "%noheader" [] OTHER -> ""
             l == o \o (IF o # "" /\ f # "" THEN "," ELSE "") \o f
             all == l \o (IF l # "" /\ c # "" THEN "," ELSE "") \o c IN
         IF all = "" THEN <<>> ELSE << "[" \o all \o "]" >>
Table == Attrs \o <<Delim>> \o (IF lead THEN <<"">> ELSE <<>>) \o text \o <<Delim>>
Case == [ lines |-> IF fmt = "nested" THEN <<"|===", "a|">> \o Table \o <<"|===">> ELSE Table \o <<"", "after">>,
          files |-> <<>>, set |-> [safe |-> "safe", attrs |-> << <<"sp", Sep, "ro">>, <<"sq", "\"q\"", "ro">> >>], also |-> <<"crlf", "html5s">>,
          expect |-> [ grid |-> IF fmt = "nested" THEN << << <<"tbody", << << <<"td", 1, 1, "a", "left top", <<Grid>>>> >> >>>> >> >> ELSE <<Grid>>,
                       diagset |-> <<>> ] ]
\* a first line of implicit columns must be a whole row; without more, a header row is no table
Ready == /\ (Implicit => row > 1) /\ (HasHead => row > 1 /\ (opt = "implicit" => Last > 1))
         /\ (HasFoot => visits = 0 /\ \A i \in DOMAIN cells : cells[i].row + cells[i].rs - 1 < Last \/ cells[i].row = Last)
         /\ (~Prefixed => visits = 0)
         /\ (HasFoot => \A i \in DOMAIN cells : cells[i].row = Last => cells[i].rs = 1)
         \* cells that span rows beyond the last
         /\ (HasHead => \A i \in DOMAIN cells : cells[i].row = 1 => cells[i].rs = 1)
Emit == n > 0 /\ Ready => PrintT("@@" \o ToJson(Case))
=============================================================================
