------------------------------ MODULE Sections ------------------------------
(* Section structure: headings, level offsets, parts, discrete headings.      *)
(*                                                                            *)
(* The machine reads one piece of the document per step and keeps the path of *)
(* open sections and the level offset in force.  `par' is the parent the path *)
(* gives each heading; TLC checks in every state that it is the nearest       *)
(* preceding heading of a lower effective level (Nested), that the path is    *)
(* strictly increasing (Path), and that a block lands in the last heading     *)
(* written above it (Lands).                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,      \* number of actions
          MaxMarks,    \* heading markers go from 1 to this
          Doctypes,    \* "article" | "book"
          Titled,      \* has the document a title
          Acts,        \* kinds of action
          Rich,        \* heading spellings: `#', comment or attribute line before
          TopZero      \* article: may level 0 headings occur

VARIABLES dt, titled, job, n, off, path, items, par, lines, files, diags, words, tight, zero
vars == <<dt, titled, job, n, off, path, items, par, lines, files, diags, words, tight, zero>>

Marks(c, k) == CASE k = 1 -> c [] k = 2 -> c \o c [] k = 3 -> c \o c \o c [] k = 4 -> c \o c \o c \o c
                 [] k = 5 -> c \o c \o c \o c \o c [] k = 6 -> c \o c \o c \o c \o c \o c
                 [] k = 7 -> c \o c \o c \o c \o c \o c \o c
Clamp(x) == IF x < 0 THEN 0 ELSE x
Eff(k, o) == Clamp(k - 1 + o)
T(i) == "t" \o ToString(i)
B(i) == "b" \o ToString(i)

RECURSIVE PopTo(_, _)
PopTo(p, l) == IF p # <<>> /\ p[Len(p)].l >= l THEN PopTo(SubSeq(p, 1, Len(p) - 1), l) ELSE p
TopLevel(p) == IF p = <<>> THEN 0 ELSE p[Len(p)].l
TopIdx(p) == IF p = <<>> THEN 0 ELSE p[Len(p)].i

\* ---- offsets ----------------------------------------------------------------
\* an assignment is absolute, relative, or unsets
Shift(o, a) == CASE a = "1" -> 1 [] a = "0" -> 0 [] a = "2" -> 2 [] a = "+1" -> o + 1 [] a = "+2" -> o + 2 [] a = "-1" -> o - 1 [] a = "!" -> 0
JobOff == job # "none"

\* ---- adding a heading / block to the tree ------------------------------------
\* returns the new [path, items, par, diags, zero] for a heading of effective level l at file:line
AddHead(st, l, id, file, line) ==
  LET p == PopTo(st.path, l)
      oos == l > TopLevel(p) + 1
      bad0 == l = 0 /\ dt = "article"
      ds == (IF oos \/ bad0 THEN {<<file, line>>} ELSE {}) IN
  [ path |-> Append(p, [l |-> l, i |-> Len(st.items) + 1]),
    items |-> Append(st.items, [k |-> IF l = 0 /\ dt = "book" THEN "part" ELSE "h", l |-> l, id |-> id, at |-> <<file, line>>]),
    par |-> Append(st.par, TopIdx(p)),
    diags |-> st.diags \cup ds, zero |-> st.zero \/ bad0 ]
AddBlock(st, node) ==
  [ st EXCEPT !.items = Append(st.items, [k |-> "b", l |-> 99, node |-> node, id |-> 0, at |-> <<"", 0>>]),
              !.par = Append(st.par, TopIdx(st.path)) ]
St == [path |-> path, items |-> items, par |-> par, diags |-> diags, zero |-> zero]
Set(st) == /\ path' = st.path /\ items' = st.items /\ par' = st.par /\ diags' = st.diags /\ zero' = st.zero

Init ==
  /\ dt \in Doctypes /\ titled \in Titled /\ job \in (IF "job" \in Acts THEN {"none", "1", "-1"} ELSE {"none"})
  /\ n = 0 /\ off = (IF job = "none" THEN 0 ELSE IF job = "1" THEN 1 ELSE -1)
  /\ path = <<>> /\ items = <<>> /\ par = <<>> /\ files = <<>> /\ diags = {} /\ words = <<>>
  /\ tight = FALSE /\ zero = FALSE
  \* (a title line is read with the offset given by the job: not with -1 or 1)
  /\ (titled => job = "none")
  /\ lines = (IF titled THEN <<"= Title", "">> ELSE <<>>) \o <<"start", "">>

\* `start' is the first block of every document
Pre(sq) == sq

Spell == IF Rich THEN {"=", "#", "comment", "role", "title", "blank"} ELSE {"="}
Before(s) == CASE s = "comment" -> <<"// note">> [] s = "role" -> <<"[.role]">> [] s = "title" -> <<>> [] s = "blank" -> <<"">> [] OTHER -> <<>>
Cfg == UNCHANGED <<dt, titled, job>>
Headline(s, k, i) == Marks(IF s = "#" THEN "#" ELSE "=", k) \o " " \o T(i)

Heading(k, s, gap) ==
  LET l == Eff(k, off) ln == Len(lines) + Len(Before(s)) + 1 IN
  /\ "heading" \in Acts
  /\ (dt = "article" /\ ~TopZero => l > 0)
  /\ lines' = lines \o Before(s) \o <<Headline(s, k, n)>> \o (IF gap THEN <<"">> ELSE <<>>)
  /\ Set(AddHead(St, l, n, "main.adoc", ln))
  /\ words' = Append(words, T(n)) /\ tight' = ~gap
  /\ UNCHANGED <<off, files>>

\* a line with more than six markers is text
SevenMarks ==
  /\ "seven" \in Acts
  /\ LET w == Marks("=", 7) IN
     /\ lines' = lines \o <<w \o " " \o T(n), "">> /\ words' = words \o <<w, T(n)>>
     /\ Set(AddBlock(St, <<"p", w \o " " \o T(n)>>))
  /\ tight' = FALSE /\ UNCHANGED <<off, files>>

Para ==
  /\ "para" \in Acts
  /\ lines' = lines \o <<B(n), "">> /\ words' = Append(words, B(n)) /\ tight' = FALSE
  /\ Set(AddBlock(St, <<"p", B(n)>>))
  /\ UNCHANGED <<off, files>>

\* heading-like lines within blocks are text
Inside(c) ==
  LET h == "== " \o T(n) IN
  /\ "inside" \in Acts
  /\ lines' = lines \o (CASE c = "example" -> <<"====", h, "====", "">> [] c = "listing" -> <<"----", h, "----", "">>
                          [] c = "sidebar" -> <<"****", "", "=== " \o T(n), "", B(n), "****", "">> [] c = "para" -> <<B(n), h, "">>
                          [] c = "open" -> <<"--", "= " \o T(n), "--", "">> [] c = "comment" -> <<"////", h, "////", "">>
                          [] c = "indent" -> <<" " \o h, "">>)
  /\ words' = words \o (CASE c = "example" -> <<"==", T(n)>> [] c = "listing" -> <<"==", T(n)>> [] c = "sidebar" -> <<"===", T(n), B(n)>>
                          [] c = "para" -> <<B(n), "==", T(n)>> [] c = "open" -> <<"=", T(n)>> [] c = "comment" -> <<>> [] c = "indent" -> <<"==", T(n)>>)
  /\ (IF c = "comment" THEN Set(St) ELSE
      Set(AddBlock(St, CASE c = "example" -> <<"example", <<"p", h>>>> [] c = "listing" -> <<"listing", h>>
                          [] c = "sidebar" -> <<"sidebar", <<"p", "=== " \o T(n)>>, <<"p", B(n)>>>> [] c = "para" -> <<"p", B(n) \o " " \o h>>
                          [] c = "open" -> <<"open", <<"p", "= " \o T(n)>>>> [] c = "indent" -> <<"literal", h>>)))
  /\ tight' = FALSE /\ UNCHANGED <<off, files>>

Discrete(k, st) ==
  LET l == Eff(k, off) IN
  /\ "discrete" \in Acts /\ l \in 1..5
  /\ lines' = lines \o <<"[" \o st \o "]", Marks("=", k) \o " " \o T(n), "">>
  /\ words' = Append(words, T(n)) /\ tight' = FALSE
  /\ Set(AddBlock(St, <<"discrete", l, T(n)>>))
  /\ UNCHANGED <<off, files>>

Offset(a, gap) ==
  /\ "offset" \in Acts
  /\ lines' = lines \o << IF a = "!" THEN ":leveloffset!:" ELSE ":leveloffset: " \o a >> \o (IF gap THEN <<"">> ELSE <<>>)
  /\ off' = (IF JobOff THEN off ELSE Shift(off, a))
  /\ off' \in -2..3
  /\ tight' = tight
  /\ UNCHANGED <<path, items, par, diags, zero, words, files>>

\* an included file: a heading, a paragraph, perhaps a nested include of the same
Incl(k, a, nested, na, nk) ==
  LET io == IF a = "" THEN off ELSE Shift(off, a)
      no == IF na = "" THEN io ELSE Shift(io, na)
      f1 == "i" \o ToString(n) \o ".adoc" f2 == "j" \o ToString(n) \o ".adoc"
      s1 == AddHead(St, Eff(k, io), 100 + n, f1, 1)
      s2 == AddBlock(s1, <<"p", B(100 + n)>>)
      s3 == IF nested THEN AddHead(s2, Eff(nk, no), 200 + n, f2, 1) ELSE s2
      s4 == IF nested THEN AddHead(s3, Eff(k, io), 300 + n, f1, 7) ELSE s3
  IN
  /\ "include" \in Acts
  /\ io \in -1..3 /\ no \in -1..3
  /\ (dt = "article" /\ ~TopZero => Eff(k, io) > 0 /\ (nested => Eff(nk, no) > 0))
  /\ lines' = lines \o <<"include::" \o f1 \o "[" \o (IF a = "" THEN "" ELSE "leveloffset=" \o a) \o "]", "">>
  /\ files' = files \o << <<"/base/" \o f1, <<Marks("=", k) \o " " \o T(100 + n), "", B(100 + n), "">> \o
                              (IF nested THEN <<"include::" \o f2 \o "[" \o (IF na = "" THEN "" ELSE "leveloffset=" \o na) \o "]", "",
                                                Marks("=", k) \o " " \o T(300 + n)>> ELSE <<>>)>> >>
                      \o (IF nested THEN << <<"/base/" \o f2, <<Marks("=", nk) \o " " \o T(200 + n)>>>> >> ELSE <<>>)
  /\ words' = words \o <<T(100 + n), B(100 + n)>> \o (IF nested THEN <<T(200 + n), T(300 + n)>> ELSE <<>>)
  /\ Set(s4) /\ tight' = FALSE
  /\ UNCHANGED off

\* an offset assigned in an included file stays in force after it
InclEntry(k, a) ==
  LET io == IF JobOff THEN off ELSE Shift(off, a)
      f == "i" \o ToString(n) \o ".adoc" IN
  /\ "include" \in Acts /\ io \in -1..3
  /\ (dt = "article" /\ ~TopZero => Eff(k, io) > 0)
  /\ lines' = lines \o <<"include::" \o f \o "[]", "">>
  /\ files' = files \o << <<"/base/" \o f, <<":leveloffset: " \o a, "", Marks("=", k) \o " " \o T(100 + n)>>>> >>
  /\ words' = Append(words, T(100 + n))
  /\ off' = io /\ Set(AddHead(St, Eff(k, io), 100 + n, f, 3)) /\ tight' = FALSE

Step ==
  \/ \E k \in 1..MaxMarks, s \in Spell, gap \in BOOLEAN : (s \in {"comment", "role", "#"} \/ ~tight \/ s = "=" \/ s = "blank") /\ Heading(k, s, gap)
  \/ SevenMarks
  \/ Para
  \/ \E c \in {"example", "listing", "sidebar", "para", "open", "comment", "indent"} : Inside(c)
  \/ \E k \in 2..MaxMarks, st \in {"discrete", "float"} : Discrete(k, st)
  \/ \E a \in {"0", "1", "2", "+1", "+2", "-1", "!"}, gap \in BOOLEAN : Offset(a, gap)
  \/ \E k \in 1..3, a \in {"", "+1", "1", "2", "-1", "0"}, nested \in BOOLEAN, na \in {"", "+1", "1", "-1"}, nk \in 1..3 :
        (IF nested THEN k # 3 /\ a \in {"", "+1", "1"} /\ nk # 3 ELSE na = "" /\ nk = 1) /\ Incl(k, a, nested, na, nk)
  \/ \E k \in 1..3, a \in {"1", "+1"} : InclEntry(k, a)
\* levels below 5 cannot be written, only reached by offsets
Deep == \A i \in DOMAIN items : items[i].l <= 5 \/ items[i].k = "b"
Next == n < MaxLen /\ n' = n + 1 /\ Cfg /\ Step /\ Deep'

\* ---- properties ---------------------------------------------------------------
Lower(i) == {j \in 1..(i - 1) : items[j].l < items[i].l /\ items[j].k # "b"}
MaxOr0(s) == IF s = {} THEN 0 ELSE CHOOSE x \in s : \A y \in s : y <= x
Nested == \A i \in DOMAIN items : items[i].k # "b" => par[i] = MaxOr0(Lower(i))
Lands == \A i \in DOMAIN items : items[i].k = "b" => par[i] = MaxOr0({j \in 1..(i - 1) : items[j].k # "b"})
Path == \A i \in 1..(Len(path) - 1) : path[i].l < path[i + 1].l

\* ---- the tree --------------------------------------------------------------------
Kids(i) == {j \in DOMAIN items : par[j] = i}
RECURSIVE Asc(_)
Asc(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Asc(s \ {m})
RECURSIVE Node(_), Nodes(_)
Node(i) ==
  IF items[i].k = "b" THEN << items[i].node >>
  ELSE IF items[i].k = "part"
  THEN LET ks == Asc(Kids(i))
           bs == SelectSeq(ks, LAMBDA j : items[j].k = "b")
           hs == SelectSeq(ks, LAMBDA j : items[j].k # "b") IN
       << <<"part", "_" \o T(items[i].id), T(items[i].id)>> >>
       \o (CASE bs = <<>> -> <<>>
              \* an open block alone is the intro
              [] Len(bs) = 1 /\ items[bs[1]].node[1] = "open" -> Nodes(bs)
              [] OTHER -> << <<"open">> \o Nodes(bs) >>) \o Nodes(hs)
  ELSE << <<"sect", items[i].l, "_" \o T(items[i].id), T(items[i].id)>> \o Nodes(Asc(Kids(i))) >>
Nodes(s) == IF s = <<>> THEN <<>> ELSE Node(s[1]) \o Nodes(Tail(s))

\* blocks before the first heading
First == Asc({j \in Kids(0) : items[j].k = "b"})
Rest == Asc({j \in Kids(0) : items[j].k # "b"})
HasHead == Rest # <<>>
Start == << <<"p", "start">> >>
Outline == IF titled /\ HasHead THEN << <<"preamble">> \o Start \o Nodes(First) >> \o Nodes(Rest)
           ELSE Start \o Nodes(First) \o Nodes(Rest)
\* where misplaced sections go is error recovery: below the document title or
\* a part, an out of sequence section may count as part of the text there
Misplaced(i) == items[i].k = "h" /\ items[i].l > 1 /\ (IF par[i] = 0 THEN titled \/ dt = "book" ELSE items[par[i]].k = "part")
\* a part with no section in it is reported
EmptyParts == {items[i].at : i \in {i \in DOMAIN items : items[i].k = "part" /\ \A j \in Kids(i) : items[j].k = "b" \/ Misplaced(j)}}
AllDiags == diags \cup EmptyParts
RECURSIVE SetSeq(_)
SetSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SetSeq(s \ {x})


Case == [ lines |-> lines, files |-> files,
          set |-> [safe |-> "safe", doctype |-> IF dt = "book" THEN "book" ELSE ""] @@
                  (IF job = "none" THEN <<>> ELSE [attrs |-> << <<"leveloffset", job, "ro">> >>]),
          also |-> IF \E i \in DOMAIN items : items[i].k = "part" THEN <<"crlf">> ELSE <<"crlf", "html5s">>,
          expect |-> [words |-> <<"start">> \o words, diagset |-> SetSeq(AllDiags)] @@
                     (IF zero \/ (\E i \in DOMAIN items : Misplaced(i)) THEN <<>> ELSE [outline |-> Outline]) ]
Emit == n > 0 => PrintT("@@" \o ToJson(Case))
=============================================================================
