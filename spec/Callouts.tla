------------------------------- MODULE Callouts ------------------------------
(* Callouts: the register of marks between two callout lists.                 *)
(*                                                                            *)
(* The machine writes lines of verbatim blocks, ending in marks or not, and   *)
(* callout lists.  A mark enters the register; a callout list looks its       *)
(* numbers up there and clears it.  TLC checks that automatic marks count on  *)
(* from 1 after every list (Counted), and that an item is reported exactly    *)
(* when its number is out of sequence or without a mark (Reported).           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS MaxLen, Blocks, Codes, Guards, Marks, Items, Containers, MaxDepth, Icons, MaxMarks, MaxLines

VARIABLES icons, n, open, block, lines, reg, code, colists, cur, next, bad, tight, marks
vars == <<icons, n, open, block, lines, reg, code, colists, cur, next, bad, tight, marks>>
\* block: [k, text, new] of the verbatim block being written ("" when outside), "colist" while in a list
\* reg: numbers since the last list; code: text of each verbatim block; colists: items of each list
\* cur: lines of the open block or items of the open list; next: expected number of the next item; bad: reported lines
\* marks: history of <<kind, number, register before>>, for the properties

W == "w" \o ToString(n)
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
Depth == Len(open)
InCell == \E i \in DOMAIN open : open[i] = "cell"
Active(k) == k \in {"listing", "source", "literal", "fence", "lstpara", "litpara", "indent", "quotes", "attrs", "erlang", "nested"}
OpenWith(k) == CASE k \in {"listing", "nested"} -> <<"----">> [] k = "source" -> <<"[source,ruby]", "----">> [] k = "literal" -> <<"....">> [] k = "fence" -> <<"```">> [] k = "lstpara" -> <<"[listing]">>
                 [] k = "litpara" -> <<"[literal]">> [] k = "indent" -> <<>> [] k = "quotes" -> <<"[subs=+quotes]", "----">> [] k = "attrs" -> <<"[subs=\"attributes+\"]", "----">>
                 [] k = "erlang" -> <<"[source,erlang,line-comment=%]", "----">> [] k = "none" -> <<"[subs=-callouts]", "----">> [] k = "para" -> <<>> [] k = "example" -> <<"====">>
CloseWith(k) == CASE k \in {"listing", "nested", "source", "quotes", "attrs", "erlang", "none"} -> <<"----">> [] k = "literal" -> <<"....">> [] k = "fence" -> <<"```">> [] OTHER -> <<>>
Paragraph(k) == k \in {"lstpara", "litpara", "indent", "para"}

\* code text: source and what is seen
Code(c) == CASE c = "word" -> W [] c = "bare" -> "" [] c = "lt" -> W \o " < 1 && x" [] c = "inner" -> W \o " <1> y" [] c = "str" -> W \o " \"x\"" [] c = "slashes" -> W \o " http://x.org" [] c = "empty" -> "[]" [] c = "glued" -> W \o "()" [] c = "back" -> W \o " \\n"
Guard(g) == CASE g = "none" -> "" [] g = "//" -> "// " [] g = "#" -> "# " [] g = ";;" -> ";; " [] g = "--" -> "-- " [] g = "%" -> "% " [] g = "//~" -> "//" [] g = "xml" -> ""
\* a mark: its source, given the guard
Number(m, r) == IF m = "auto" THEN (IF r = <<>> THEN 1 ELSE r[Len(r)] + 1) ELSE IF m = "1" THEN 1 ELSE IF m = "2" THEN 2 ELSE 12
Written(m, g) == LET t == IF m \in {"auto", "esc-auto"} THEN "." ELSE IF m = "esc" THEN "1" ELSE m IN
                 (IF m \in {"esc", "esc-auto"} THEN "\\" ELSE "") \o (IF g = "xml" THEN "<!--" \o t \o "-->" ELSE "<" \o t \o ">")
Plain(m, g) == LET t == IF m \in {"auto", "esc-auto"} THEN "." ELSE IF m = "esc" THEN "1" ELSE m IN IF g = "xml" THEN "<!--" \o t \o "-->" ELSE "<" \o t \o ">"
Glyph(num, g) == IF g = "xml" /\ icons # "font" THEN "<!--(" \o ToString(num) \o ")-->" ELSE "(" \o ToString(num) \o ")"

\* what is seen of marks ms, with the register after them
RECURSIVE Seen(_, _, _, _)
Seen(ms, g, r, live) ==
  IF ms = <<>> THEN [t |-> <<>>, r |-> r, h |-> <<>>]
  ELSE LET m == ms[1]
           real == live /\ m \notin {"esc", "esc-auto"}
           num == Number(m, r)
           rest == Seen(Tail(ms), g, IF real THEN Append(r, num) ELSE r, live) IN
       [ t |-> << IF real THEN Glyph(num, g) ELSE IF live THEN Plain(m, g) ELSE Written(m, g) >> \o rest.t,
         r |-> rest.r, h |-> (IF real THEN << <<m, num, r>> >> ELSE <<>>) \o rest.h ]

Line(c, g, ms) ==
  LET live == Active(block)
      s == Seen(ms, g, reg, live)
      \* font icons replace the comment in front of the marks
      hide == icons = "font" /\ live /\ ms # <<>> /\ ms[1] \notin {"esc", "esc-auto"} /\ g \in {"//", "#", ";;", "%"}
      src == Join(SelectSeq(<<Code(c), Guard(g) \o Join([i \in DOMAIN ms |-> Written(ms[i], g)], " ")>>, LAMBDA x : x # ""), " ")
      glued == g = "//~" /\ (~live \/ ms[1] \in {"esc", "esc-auto"})
      vis == Join(SelectSeq(<<Code(c)>> \o (IF g \in {"none", "xml"} \/ hide THEN <<>> ELSE IF glued THEN << "//" \o s.t[1] >> ELSE << IF g = "//~" THEN "//" ELSE g >>) \o (IF glued THEN Tail(s.t) ELSE s.t), LAMBDA x : x # ""), " ") IN
  /\ block \notin {"", "colist"} /\ Len(cur) < MaxLines
  /\ (g # "none" => ms # <<>>) /\ (c = "bare" => ms # <<>> /\ ~Paragraph(block))
  /\ (g = "%" => block = "erlang") /\ (block = "erlang" => g \in {"none", "%", "xml"})
  \* comment lines in the source of a table are dropped
  /\ (InCell /\ c = "bare" => g \notin {"//", "//~"})
  /\ (g = "--" => icons # "font") /\ (g = ";;" => ~Paragraph(block))
  \* escapes are only read where callouts are
  /\ (~live => \A i \in DOMAIN ms : ms[i] \notin {"esc", "esc-auto"})
  /\ (block = "para" => g \in {"none", "//", "#"} /\ c \in {"word", "lt", "inner"})
  \* a comment line in a paragraph is a comment; quoted text would be formatted
  /\ (block = "quotes" => g # "#")
  /\ lines' = Append(lines, (IF block = "indent" THEN " " ELSE "") \o src)
  /\ cur' = Append(cur, vis) /\ reg' = s.r /\ marks' = marks \o s.h
  /\ UNCHANGED <<icons, open, block, code, colists, next, bad, tight>>

Glue == IF lines = <<>> \/ tight THEN <<>> ELSE IF Depth > 0 /\ open[Depth] = "item" THEN <<"+">> ELSE <<"">>
Start(k) ==
  /\ block = ""
  /\ (k = "indent" => ~(Depth > 0 /\ open[Depth] = "item"))
  /\ lines' = lines \o Glue \o OpenWith(k) /\ block' = k /\ cur' = <<>> /\ tight' = FALSE /\ UNCHANGED <<icons, open, reg, code, colists, next, bad, marks>>
End ==
  /\ block \notin {"", "colist"} /\ cur # <<>>
  /\ lines' = lines \o CloseWith(block) /\ block' = ""
  /\ code' = IF block = "para" THEN code ELSE Append(code, cur)
  /\ cur' = <<>> /\ UNCHANGED <<icons, open, reg, colists, next, bad, tight, marks>>

\* callout lists; adjacent: no blank line in front
Item(m, first) ==
  LET num == IF m = "auto" THEN next ELSE Number(m, <<>>)
      wrong == num # next
      orphan == \A i \in DOMAIN reg : reg[i] # num IN
  /\ lines' = Append(lines, (IF m = "auto" THEN "<.>" ELSE "<" \o m \o ">") \o " " \o W)
  /\ cur' = Append(cur, <<num, W>>) /\ next' = num + 1
  /\ bad' = IF wrong \/ orphan THEN Append(bad, <<Len(lines) + 1, wrong, orphan>>) ELSE bad
  /\ UNCHANGED <<icons, open, reg, code, colists, tight, marks>>
Lead(gap) == IF gap = "blank" THEN Glue ELSE <<>>
LastIsItem == colists # <<>> /\ LET l == colists[Len(colists)] IN lines[Len(lines)] \in { p \o l[Len(l)][2] : p \in {"<.> ", "<1> ", "<2> ", "<12> "} }
StartList(gap) ==
  /\ ~LastIsItem
  /\ block = "" /\ next = 1 /\ ~tight /\ lines # <<>>
  /\ (gap = "none" => lines[Len(lines)] \in {"----", "....", "```", "====", "****", "|==="})
  \* an item takes the list only when attached
  /\ (Depth > 0 /\ open[Depth] = "item" => gap = "blank")
  /\ lines' = lines \o Lead(gap) /\ block' = "colist" /\ cur' = <<>> /\ UNCHANGED <<icons, open, reg, code, colists, next, bad, tight, marks>>
EndList ==
  /\ block = "colist" /\ cur # <<>>
  /\ block' = "" /\ colists' = Append(colists, cur) /\ cur' = <<>> /\ reg' = <<>> /\ next' = 1
  \* what is attached next would belong to the callout, so the item ends too
  /\ LET inItem == Depth > 0 /\ open[Depth] = "item" IN
     /\ lines' = IF inItem THEN lines \o <<"", "//-">> ELSE lines
     /\ open' = IF inItem THEN SubSeq(open, 1, Depth - 1) ELSE open
  /\ UNCHANGED <<icons, code, bad, tight, marks>>

Fence(k) == CASE k = "example" -> "====" [] k = "sidebar" -> "****" [] k = "cell" -> "|===" [] OTHER -> ""
Open(k) ==
  /\ block = "" /\ Depth < MaxDepth /\ (\A i \in DOMAIN open : open[i] # k)
  /\ (k = "item" => ~InCell /\ Depth = 0 /\ ~LastIsItem)
  /\ lines' = lines \o Glue \o (CASE k = "cell" -> <<"|===", "a|">> [] k = "item" -> <<"* x">> [] OTHER -> <<Fence(k)>>)
  /\ open' = Append(open, k) /\ tight' = (k # "item") /\ UNCHANGED <<icons, block, reg, code, colists, cur, next, bad, marks>>
Close ==
  /\ block = "" /\ Depth > 0 /\ ~tight
  /\ lines' = lines \o (IF open[Depth] = "item" THEN <<"", "//-">> ELSE <<Fence(open[Depth])>>) /\ open' = SubSeq(open, 1, Depth - 1) /\ UNCHANGED <<icons, block, reg, code, colists, cur, next, bad, tight, marks>>

Runs(ms, k) == UNION { [1..j -> ms] : j \in 0..k }
Init == icons \in Icons /\ n = 0 /\ open = <<>> /\ block = "" /\ lines = <<>> /\ reg = <<>> /\ code = <<>> /\ colists = <<>> /\ cur = <<>> /\ next = 1 /\ bad = <<>> /\ tight = FALSE /\ marks = <<>>
Do(bs, cs, gs, ms, is, os) ==
  \/ \E k \in bs : Start(k)
  \/ \E c \in cs, g \in gs, m \in ms : Line(c, g, m)
  \/ End
  \/ \E gap \in {"blank", "none"} : StartList(gap)
  \/ block = "colist" /\ \E m \in is : Item(m, FALSE) /\ UNCHANGED block
  \/ EndList
  \/ \E k \in os : Open(k)
  \/ Close
Next == n < MaxLen /\ n' = n + 1 /\ Do(Blocks, Codes, Guards, Runs(Marks, MaxMarks), Items, Containers)
Some(k, x) == RandomSubset(IF Cardinality(x) < k THEN Cardinality(x) ELSE k, x)
NextSome == n < MaxLen /\ n' = n + 1 /\ Do(Some(2, Blocks), Some(3, Codes), {"none"} \cup Some(2, Guards), {<<"auto">>} \cup Some(3, Runs(Marks, MaxMarks)), Items, Some(1, Containers))

\* ---- properties ----------------------------------------------------------------------
Counted == \A i \in DOMAIN marks : marks[i][1] = "auto" => marks[i][2] = (IF marks[i][3] = <<>> THEN 1 ELSE marks[i][3][Len(marks[i][3])] + 1)
\* a register only holds what was written after the last list
Fresh == Len(reg) <= Len(marks) /\ (block = "" /\ next = 1 /\ colists = <<>> => Len(reg) = Len(marks))
Reported == \A i \in DOMAIN bad : bad[i][2] \/ bad[i][3]

RECURSIVE CloseAll(_)
CloseAll(o) == IF o = <<>> THEN <<>> ELSE (IF open[Len(o)] = "item" THEN <<>> ELSE <<Fence(o[Len(o)])>>) \o CloseAll(SubSeq(o, 1, Len(o) - 1))
Header == IF icons = "font" THEN <<":icons: font", "">> ELSE <<>>
At(l) == <<"main.adoc", l + Len(Header)>>
RECURSIVE Flat(_)
Flat(x) == IF x = <<>> THEN <<>> ELSE x[1] \o Flat(Tail(x))
Case == [ lines |-> Header \o lines \o CloseAll(open), files |-> <<>>, set |-> [safe |-> "safe"],
          also |-> IF icons = "font" THEN <<"crlf">> ELSE <<"crlf", "html5s">>,
          expect |-> [ callouts |-> [code |-> code, lists |-> [i \in DOMAIN colists |-> [j \in DOMAIN colists[i] |-> IF icons = "font" THEN "(" \o ToString(colists[i][j][1]) \o ") " \o colists[i][j][2] ELSE colists[i][j][2]]]],
                       diagset |-> Flat([i \in DOMAIN bad |-> IF bad[i][2] /\ bad[i][3] THEN <<At(bad[i][1]), At(bad[i][1])>> ELSE <<At(bad[i][1])>>]) ] ]
Emit == n > 0 /\ block = "" /\ ~tight /\ marks # <<>> => PrintT("@@" \o ToJson(Case))
=============================================================================
