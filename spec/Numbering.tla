------------------------------ MODULE Numbering ------------------------------
(* Section numbers, appendix letters, part numerals and the table of contents. *)
(*                                                                            *)
(* The machine reads one piece of the document per step and keeps, as one who *)
(* counts along would, a counter per level, the counters set aside while an   *)
(* appendix is open, and the letters and numerals given out.  TLC checks in   *)
(* every state that the label so counted is the position of the section:      *)
(* its parent's label and the number of numbered siblings up to it (Position),*)
(* that no label is given twice (Distinct), and that letters and numerals go  *)
(* up one by one (Consecutive).                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,    \* number of actions
          Doctypes, Acts, Specials, Forms,
          Heads,     \* what the header says of numbering: "off" "on" "all"
          Depths,    \* header sectnumlevels, 9 for none
          Tocs, TocDepths,  \* header toc and toclevels, 9 for none
          Signs      \* "none" "all": the signifiers
VARIABLES dt, titled, toc, tl, sign, n, sw, lv, path, items, par, cnt, saved, letters, numerals, lines, pre, hdr, entry
vars == <<dt, titled, toc, tl, sign, n, sw, lv, path, items, par, cnt, saved, letters, numerals, lines, pre, hdr, entry>>

Marks(k) == CASE k = 1 -> "=" [] k = 2 -> "==" [] k = 3 -> "===" [] k = 4 -> "====" [] k = 5 -> "=====" [] k = 6 -> "======"
Letter(k) == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L">>[k]
Roman(k) == <<"I", "II", "III", "IV", "V", "VI", "VII", "VIII", "IX", "X", "XI", "XII">>[k]
T(i) == "t" \o ToString(i)
LvOf(d) == IF d = 9 THEN 3 ELSE d
TlOf(d) == IF d = 9 THEN 2 ELSE d

Header ==
  (IF titled THEN <<"= D">> ELSE <<>>)
  \o (IF dt = "book" THEN <<":doctype: book">> ELSE <<>>)
  \o (CASE hdr.sw = "off" -> <<>> [] hdr.sw = "on" -> <<":sectnums:">> [] hdr.sw = "all" -> <<":sectnums: all">>)
  \o (IF hdr.depth = 9 THEN <<>> ELSE <<":sectnumlevels: " \o ToString(hdr.depth)>>)
  \o (CASE toc = "none" -> <<>> [] toc = "auto" -> <<":toc:">> [] OTHER -> <<":toc: " \o toc>>)
  \o (IF hdr.toclevels = 9 THEN <<>> ELSE <<":toclevels: " \o ToString(hdr.toclevels)>>)
  \o (CASE sign = "none" -> <<>>
        [] sign = "all" -> <<":appendix-caption: Exhibit">> \o (IF dt = "book" THEN <<":partnums:", ":part-signifier: Part", ":chapter-signifier: Chapter">> ELSE <<>>)
        [] sign = "bare" -> <<":appendix-caption!:">> \o (IF dt = "book" THEN <<":partnums:">> ELSE <<>>))
TocLine == CHOOSE i \in DOMAIN Header : Header[i] \in {":toc:", ":toc: macro", ":toc: preamble"}

Init ==
  /\ dt \in Doctypes /\ titled \in (IF dt = "book" THEN {TRUE} ELSE {TRUE, FALSE})
  /\ toc \in Tocs /\ sign \in Signs /\ sw \in Heads
  /\ hdr \in [sw : {sw}, depth : Depths, toclevels : IF toc = "none" THEN {9} ELSE TocDepths]
  /\ lv = LvOf(hdr.depth) /\ tl = TlOf(hdr.toclevels)
  /\ n = 0 /\ path = <<>> /\ items = <<>> /\ par = <<>> /\ cnt = <<0, 0, 0, 0, 0>> /\ saved = <<>> /\ letters = 0 /\ numerals = 0
  /\ pre = 0 /\ entry = FALSE /\ lines = (IF Header = <<>> THEN <<>> ELSE Header \o <<"">>)

Top == IF path = <<>> THEN 0 ELSE path[Len(path)]
TopLevel == IF path = <<>> THEN 0 ELSE items[Top].l
RECURSIVE Pop(_, _)
Pop(p, l) == IF p # <<>> /\ items[p[Len(p)]].l >= l THEN Pop(SubSeq(p, 1, Len(p) - 1), l) ELSE p
IsHead(i) == items[i].k \in {"sect", "part"}
Heads0 == {i \in DOMAIN items : IsHead(i)}
\* sections without further sections in them
Leaf == {"glossary", "bibliography", "colophon", "dedication"}

\* special sections written as level 0 after the parts end the book
Closed == \E i, j \in Heads0 : items[i].zero /\ j < i /\ items[j].k = "part"

\* ---- counting ----------------------------------------------------------------
RECURSIVE Digits(_, _, _)
Digits(c, a, b) == IF a > b THEN "" ELSE ToString(c[a]) \o "." \o Digits(c, a + 1, b)
Reset(c, l) == [k \in 1..5 |-> IF k < l THEN c[k] ELSE IF k = l THEN c[k] + 1 ELSE 0]

Body(f, i) == CASE f = "plain" -> T(i) [] f = "bold" -> "*" \o T(i) \o "*" [] f = "code" -> T(i) \o " `x`" [] f = "anchor" -> "[[e" \o ToString(i) \o "]]" \o T(i)
                [] f = "explicit" -> T(i) [] f = "link" -> T(i) \o " https://e.org[site]" [] f = "amp" -> T(i) \o " & x" [] f = "foot" -> T(i) \o " (C)"
Shown(f, i) == CASE f = "code" -> T(i) \o " x" [] f = "link" -> T(i) \o " site" [] f = "amp" -> T(i) \o " & x" [] f = "foot" -> T(i) \o " \\u00a9" [] OTHER -> T(i)
IdOf(f, i) == CASE f \in {"explicit", "link"} -> "own" \o ToString(i) [] f = "code" -> "_" \o T(i) \o "_x" [] f = "amp" -> "_" \o T(i) \o "_x" [] f = "foot" -> "_" \o T(i) \o "_c" [] OTHER -> "_" \o T(i)

\* a section of level l; zero: a special section written as level 0
Section(l, sp, f, zero) ==
  LET p == Pop(path, IF zero THEN 0 ELSE l)
      up == IF p = <<>> THEN 0 ELSE p[Len(p)]
      upk == IF up = 0 THEN [k |-> "root", num |-> TRUE, sp |-> "", dead |-> FALSE] ELSE items[up]
      num == /\ sp # "appendix" /\ sw # "off" /\ l <= lv
             /\ (sw = "all" \/ (sp = "" /\ ~upk.dead))
      \* leaving an appendix brings the counters before it back
      inApp == l > 1 /\ saved # <<>>
      base == IF inApp \/ saved = <<>> THEN cnt ELSE saved
      c == IF num THEN Reset(base, l) ELSE base
      label == IF ~num THEN "" ELSE IF inApp THEN Letter(letters) \o "." \o Digits(c, 2, l) ELSE Digits(c, 1, l)
      prefix == CASE sp = "appendix" -> (CASE sign = "none" -> "Appendix " \o Letter(letters + 1) \o ": " [] sign = "all" -> "Exhibit " \o Letter(letters + 1) \o ": " [] OTHER -> Letter(letters + 1) \o ". ")
                  [] ~num -> "" [] OTHER -> (IF l = 1 /\ dt = "book" /\ sign = "all" THEN "Chapter " ELSE "") \o label \o " " IN
  \* sections out of sequence are numbered with zeros for the levels in between
  /\ l <= (IF zero THEN 1 ELSE IF "skip" \in Acts /\ sp = "" /\ path # <<>> THEN TopLevel + 3 ELSE TopLevel + 1) /\ l <= 5
  /\ (up # 0 => items[up].sp \notin Leaf)
  \* numbered sections in unnumbered ones have no position
  /\ (num /\ l > 1 => upk.num \/ upk.sp = "appendix")
  /\ (sp = "appendix" => l = 1)
  \* special sections written as level 0 come first or last in a book
  /\ (zero => dt = "book" /\ sp # "")
  /\ (~zero /\ l = 1 => ~Closed)
  /\ path' = Append(p, Len(items) + 1)
  /\ items' = Append(items, [k |-> "sect", l |-> l, sp |-> sp, num |-> num, dead |-> (sp \notin {"", "appendix"} /\ sw # "all") \/ (sp = "" /\ upk.dead), label |-> label,
                             txt |-> prefix \o Shown(f, n), id |-> IdOf(f, n), zero |-> zero,
                             skip |-> ~zero /\ l > 1 /\ up # 0 /\ l > items[up].l + 1, ln |-> Len(lines) + 1 + (IF sp # "" \/ f \in {"explicit", "link"} THEN 1 ELSE 0)])
  /\ par' = Append(par, up)
  /\ letters' = (IF sp = "appendix" THEN letters + 1 ELSE letters)
  /\ saved' = (IF sp = "appendix" THEN base ELSE IF inApp THEN saved ELSE <<>>)
  /\ cnt' = (IF sp = "appendix" THEN <<0, 0, 0, 0, 0>> ELSE c)
  /\ lines' = lines \o (CASE sp # "" /\ f \in {"explicit", "link"} -> <<"[" \o sp \o "#own" \o ToString(n) \o "]">> [] sp # "" -> <<"[" \o sp \o "]">>
                          [] f \in {"explicit", "link"} -> <<"[#own" \o ToString(n) \o "]">> [] OTHER -> <<>>)
              \o <<Marks(IF zero THEN 1 ELSE l + 1) \o " " \o Body(f, n), "">>
  /\ UNCHANGED <<sw, lv, pre, numerals, entry>>

Part(f) ==
  /\ dt = "book" /\ "part" \in Acts
  /\ ~Closed
  /\ path' = <<Len(items) + 1>> /\ par' = Append(par, 0)
  /\ items' = Append(items, [k |-> "part", l |-> 0, sp |-> "", num |-> TRUE, dead |-> FALSE, label |-> "", zero |-> FALSE, id |-> IdOf(f, n),
                             txt |-> (CASE sign = "none" -> "" [] sign = "all" -> "Part " \o Roman(numerals + 1) \o ": " [] OTHER -> Roman(numerals + 1) \o ": ") \o Shown(f, n)])
  /\ numerals' = numerals + 1 /\ numerals < 12
  /\ cnt' = (IF saved = <<>> THEN cnt ELSE saved) /\ saved' = <<>>
  /\ lines' = lines \o (IF f \in {"explicit", "link"} THEN <<"[#own" \o ToString(n) \o "]">> ELSE <<>>) \o <<"= " \o Body(f, n), "">>
  /\ UNCHANGED <<sw, lv, letters, pre, entry>>

\* a block in the section that is open
InPart == Top # 0 /\ items[Top].k = "part"
AddBlock(node, ls) ==
  /\ ~InPart
  /\ items' = Append(items, [k |-> "b", l |-> 99, node |-> node, sp |-> "", num |-> FALSE, dead |-> FALSE, label |-> "", zero |-> FALSE, id |-> "", txt |-> ""])
  /\ par' = Append(par, Top)
  /\ lines' = lines \o ls
  /\ pre' = (IF Heads0 = {} THEN pre + 1 ELSE pre)
  /\ UNCHANGED <<sw, lv, path, cnt, saved, letters, numerals, entry>>
Para == "para" \in Acts /\ AddBlock(<<"p", T(n)>>, <<T(n), "">>)
Disc == "discrete" \in Acts /\ AddBlock(<<"discrete", 2, T(n)>>, <<"[discrete]", "=== " \o T(n), "">>)
Blk == "block" \in Acts /\ AddBlock(<<"sidebar", <<"p", T(n)>>, <<"discrete", 1, "x" \o T(n)>>>>, <<"****", T(n), "", "[discrete]", "== x" \o T(n), "****", "">>)
Macro ==
  /\ "macro" \in Acts /\ \A i \in DOMAIN items : items[i].k = "b" => items[i].node[1] # "TOC"
  /\ AddBlock(<<"TOC", Len(lines) + 1>>, <<"toc::[]", "">>)

Switch(v) ==
  /\ "switch" \in Acts /\ v # sw /\ sw' = v
  /\ lines' = lines \o << CASE v = "off" -> ":sectnums!:" [] v = "on" -> ":sectnums:" [] v = "all" -> ":sectnums: all", "">>
  /\ entry' = (entry \/ Heads0 = {}) /\ UNCHANGED <<lv, path, items, par, cnt, saved, letters, numerals, pre>>
Depth(d) ==
  /\ "depth" \in Acts /\ d # lv /\ lv' = d /\ lines' = lines \o <<":sectnumlevels: " \o ToString(d), "">>
  /\ entry' = (entry \/ Heads0 = {}) /\ UNCHANGED <<sw, path, items, par, cnt, saved, letters, numerals, pre>>

Step ==
  \/ \E l \in 1..5, f \in Forms : Section(l, "", f, FALSE)
  \/ \E l \in 1..2, sp \in Specials, f \in Forms \cap {"plain", "explicit", "bold"} : Section(l, sp, f, FALSE) \/ (l = 1 /\ "zero" \in Acts /\ Section(1, sp, f, TRUE))
  \/ \E f \in Forms : Part(f)
  \/ Para \/ Disc \/ Blk \/ Macro
  \/ \E v \in {"off", "on", "all"} : Switch(v)
  \/ \E d \in 0..5 : Depth(d)
Next == n < MaxLen /\ n' = n + 1 /\ UNCHANGED <<dt, titled, toc, tl, sign, hdr>> /\ Step

\* ---- properties ---------------------------------------------------------------
Numbered == {i \in DOMAIN items : items[i].k = "sect" /\ items[i].num}
\* chapters are counted through the whole book
Family(i) == {j \in Numbered : items[j].l = items[i].l /\ (items[i].l = 1 \/ par[j] = par[i]) /\ j <= i}
AppendixNo(i) == Letter(Cardinality({j \in 1..i : items[j].sp = "appendix"})) \o "."
Zeros(k) == CASE k = 1 -> "0." [] k = 2 -> "0.0." [] k = 3 -> "0.0.0." [] OTHER -> ""
Position == \A i \in Numbered :
  items[i].label = (IF items[i].l = 1 \/ par[i] = 0 THEN "" ELSE IF items[par[i]].sp = "appendix" THEN AppendixNo(par[i]) ELSE items[par[i]].label) \o (IF par[i] = 0 THEN "" ELSE Zeros(items[i].l - items[par[i]].l - 1)) \o ToString(Cardinality(Family(i))) \o "."
Distinct == \A i, j \in Numbered : i # j => items[i].label # items[j].label
Consecutive == letters = Cardinality({i \in DOMAIN items : items[i].sp = "appendix"}) /\ numerals = Cardinality({i \in DOMAIN items : items[i].k = "part"})

\* ---- the document ----------------------------------------------------------------
RECURSIVE Asc(_)
Asc(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Asc(s \ {m})
RECURSIVE TocOf(_)
TocOf(i) == LET ks == Asc({j \in Heads0 : par[j] = i /\ items[j].l <= tl}) IN
            [x \in DOMAIN ks |-> <<items[ks[x]].txt, "#" \o items[ks[x]].id, TocOf(ks[x])>>]
Toc == IF TocOf(0) = <<>> THEN <<>> ELSE << <<"toc", TocOf(0)>> >>
RECURSIVE Node(_), Nodes(_)
Node(i) == IF items[i].k = "b" THEN (IF items[i].node[1] = "TOC" THEN (IF toc = "macro" THEN Toc ELSE <<>>) ELSE << items[i].node >>)
           ELSE IF items[i].k = "part" THEN << <<"part", items[i].id, items[i].txt>> >> \o Nodes(Asc({j \in DOMAIN items : par[j] = i}))
           ELSE << <<"sect", items[i].l, items[i].id, items[i].txt>> \o Nodes(Asc({j \in DOMAIN items : par[j] = i})) >>
Nodes(s) == IF s = <<>> THEN <<>> ELSE Node(s[1]) \o Nodes(Tail(s))
Preamble == titled /\ pre > 0 /\ Heads0 # {}
PreBlocks == Nodes(Asc({j \in DOMAIN items : items[j].k = "b" /\ par[j] = 0}))
Outline == (IF toc = "auto" THEN Toc ELSE <<>>)
           \o (IF Preamble THEN << <<"preamble">> \o PreBlocks \o (IF toc = "preamble" THEN Toc ELSE <<>>) >> ELSE PreBlocks)
           \o Nodes(Asc({j \in Heads0 : par[j] = 0}))
HasMacro == \E i \in DOMAIN items : items[i].k = "b" /\ items[i].node[1] = "TOC"
Skips == LET s == Asc({i \in DOMAIN items : items[i].k = "sect" /\ items[i].skip}) IN [x \in DOMAIN s |-> <<"main.adoc", items[s[x]].ln>>]
Diags == Skips \o IF toc = "none" /\ HasMacro THEN << <<"main.adoc", (CHOOSE x \in {items[i] : i \in DOMAIN items} : x.k = "b" /\ x.node[1] = "TOC").node[2]>> >>
         ELSE IF (toc = "macro" /\ ~HasMacro) \/ (toc = "preamble" /\ ~Preamble) THEN << <<"main.adoc", TocLine>> >> ELSE <<>>
Parts == {i \in Heads0 : items[i].k = "part"}
FullParts == \A i \in Parts : \E j \in Heads0 : par[j] = i
Case == [ lines |-> lines, files |-> <<>>, set |-> [safe |-> "safe"],
          also |-> IF Parts = {} /\ toc # "preamble" THEN <<"crlf", "html5s">> ELSE <<"crlf">>,
          expect |-> [outline |-> Outline, diagset |-> Diags] ]
\* a preamble is the text before the sections of a titled document
Clear == (toc = "preamble" /\ (~titled \/ pre = 0) => ~entry /\ pre = 0) /\ (Preamble => PreBlocks # <<>> \/ toc = "macro")
Emit == n > 0 /\ FullParts /\ Clear /\ Heads0 # {} => PrintT("@@" \o ToJson(Case))
=============================================================================
