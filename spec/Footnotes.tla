------------------------------ MODULE Footnotes ------------------------------
(* Footnotes: one register of notes for the whole document.                   *)
(*                                                                            *)
(* The machine writes places (paragraphs, list items, titles, cells, nested   *)
(* blocks) whose text carries footnote macros.  A macro with text takes the   *)
(* next number unless its name is known; a macro of a known name repeats the  *)
(* number; a name which is not known yet stays open.  TLC checks that the     *)
(* notes are numbered as they appear (InOrder), that a name stands for one    *)
(* note (OneNote), and that marks only show numbers of notes (Shown).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS MaxLen, Places, Marks, Contents, Containers, MaxDepth, Tocs, MaxMarks

VARIABLES toc, n, open, lines, notes, named, text, sections, tight
vars == <<toc, n, open, lines, notes, named, text, sections, tight>>
\* notes: texts by number; named: <<name, number>>; text: words and marks in reading order
\* sections: <<id, words of the title>>

Names == {"a", "b"}
W(i, j) == "w" \o ToString(i) \o (IF j = 0 THEN "" ELSE "x" \o ToString(j))
Depth == Len(open)
InCell == \E i \in DOMAIN open : open[i] = "cell"
Number(name) == LET S == {i \in DOMAIN named : named[i][1] = name} IN IF S = {} THEN 0 ELSE named[CHOOSE i \in S : TRUE][2]

\* the source and the text of note content c
Source(c, i) == CASE c = "plain" -> "n" \o ToString(i) [] c = "bold" -> "n" \o ToString(i) \o " *b*" [] c = "lt" -> "n" \o ToString(i) \o " <i> & x"
                  [] c = "esc" -> "n" \o ToString(i) \o " \\] x" [] c = "attr" -> "n" \o ToString(i) \o " {empty}{plus}" [] c = "open" -> "n" \o ToString(i) \o " [x"
                  [] c = "code" -> "`n" \o ToString(i) \o "`" [] c = "uni" -> "\\u00e9\\u4e16" \o ToString(i)
Shown1(c, i) == CASE c = "plain" -> "n" \o ToString(i) [] c = "bold" -> "n" \o ToString(i) \o " b" [] c = "lt" -> "n" \o ToString(i) \o " <i> & x"
                  [] c = "esc" -> "n" \o ToString(i) \o " ] x" [] c = "attr" -> "n" \o ToString(i) \o " +" [] c = "open" -> "n" \o ToString(i) \o " [x"
                  [] c = "code" -> "n" \o ToString(i) [] c = "uni" -> "\\u00e9\\u4e16" \o ToString(i)

\* register m = [k, id, c]: what the macro shows, with the register after it
Register(r, m, i) ==
  LET num == IF m.id = "" THEN 0 ELSE LET S == {x \in DOMAIN r.named : r.named[x][1] = m.id} IN IF S = {} THEN 0 ELSE r.named[CHOOSE x \in S : TRUE][2] IN
  CASE m.k = "inert" -> r
    [] m.k # "inert" /\ num > 0 -> [r EXCEPT !.text = Append(@, "^=" \o ToString(num))]
    [] m.k = "ref" /\ num = 0 -> [r EXCEPT !.text = Append(@, "^?" \o m.id)]
    [] m.k = "def" /\ num = 0 -> [ notes |-> Append(r.notes, Shown1(m.c, i)),
                                   named |-> IF m.id = "" THEN r.named ELSE Append(r.named, <<m.id, Len(r.notes) + 1>>),
                                   text |-> Append(r.text, "^" \o ToString(Len(r.notes) + 1)) ]
Macro(m, i) == CASE m.k = "inert" -> "\\footnote:[" \o Source("plain", i) \o "]"
                 [] m.k = "ref" -> "footnote:" \o m.id \o "[]" [] m.k = "def" -> "footnote:" \o m.id \o "[" \o Source(m.c, i) \o "]"
Reg == [notes |-> notes, named |-> named, text |-> text]

\* words and macros alternate; glued decides whether the macro touches its word
RECURSIVE Run(_, _, _)
Run(r, ms, j) == IF ms = <<>> THEN [r EXCEPT !.text = IF j = 0 THEN Append(@, W(n, 0)) ELSE @]
                 ELSE Run(Register([r EXCEPT !.text = Append(@, W(n, j))], ms[1], n * 10 + j), Tail(ms), j + 1)
RECURSIVE Written(_, _)
Written(ms, j) == IF ms = <<>> THEN (IF j = 0 THEN W(n, 0) ELSE "") ELSE (IF j > 0 THEN " " ELSE "") \o W(n, j) \o (IF (n + j) % 2 = 0 THEN "" ELSE " ") \o Macro(ms[1], n * 10 + j) \o Written(Tail(ms), j + 1)

Glue == IF lines = <<>> \/ tight THEN <<>> ELSE <<"">>
Set(r) == notes' = r.notes /\ named' = r.named /\ text' = r.text
\* a word after everything, to see that nothing is swallowed
Word(r) == [r EXCEPT !.text = Append(@, W(n, 9))]

\* places whose text is all there is
Simple == {"para", "bold", "item", "subitem", "term", "dd", "adm", "verse", "quote", "cell", "hcell", "twocells", "attached", "callout", "second", "literal", "listing", "discrete", "csv", "hdlist", "qanda", "check", "passthru", "para2"}
Place(p, ms) ==
  LET t == Written(ms, 0)
      r == Run(Reg, ms, 0)
      inert == [Reg EXCEPT !.text = @ \o (IF ms = <<>> THEN <<W(n, 0)>> ELSE [j \in 1..Len(ms) |-> W(n, j - 1)])]
      sep == IF InCell THEN "!" ELSE "|"
      fence == IF InCell THEN "!===" ELSE "|===" IN
  /\ p \in Simple
  /\ (p \in {"discrete"} => Depth = 0)
  /\ (p = "csv" => ~InCell)
  /\ (p = "bold" => \A j \in DOMAIN ms : ms[j].c # "bold")
  \* raw text has to be markup itself
  /\ (p = "passthru" => \A j \in DOMAIN ms : ms[j].c # "lt")
  /\ lines' = lines \o Glue \o
       (CASE p = "para" -> <<t>> [] p = "bold" -> <<"x *" \o t \o " y* z">> [] p = "item" -> <<"* " \o t, "", "//-">> [] p = "subitem" -> <<"* x", "** " \o t, "", "//-">>
          [] p = "term" -> <<t \o ":: y", "", "//-">> [] p = "dd" -> <<"y:: " \o t, "", "//-">> [] p = "adm" -> <<"NOTE: " \o t>> [] p = "verse" -> <<"[verse]", t>>
          [] p = "quote" -> <<"[quote]", t>> [] p = "cell" -> <<fence, sep \o t, fence>> [] p = "hcell" -> <<"[%header]", fence, sep \o t, sep \o "y", fence>>
          [] p = "twocells" -> <<"[cols=2*]", fence, sep \o "y" \o sep \o t, fence>> [] p = "attached" -> <<"* x", "+", t, "", "//-">> [] p = "second" -> <<"x", t>>
          [] p = "literal" -> <<"....", t, "....">> [] p = "listing" -> <<"----", t, "----">> [] p = "passthru" -> <<"+++" \o t \o "+++">> [] p = "callout" -> <<"----", "x <1>", "----", "<1> " \o t>>
          [] p = "discrete" -> <<"[discrete]", "== " \o t>> [] p = "csv" -> <<",===", t \o ",y", ",===">> [] p = "hdlist" -> <<"[horizontal]", t \o ":: y", "", "//-">>
          [] p = "qanda" -> <<"[qanda]", t \o ":: y", "", "//-">> [] p = "check" -> <<"* [x] " \o t, "", "//-">> [] p = "para2" -> <<t \o " +", "y">>)
  /\ IF p \in {"literal", "listing", "passthru"} THEN Set(inert) ELSE Set(r)
  /\ tight' = FALSE /\ UNCHANGED <<open, sections>>

\* a block whose title carries the macros; its content has a word
Titled(p, ms) ==
  LET t == "." \o Written(ms, 0)
      r == Run(Reg, ms, 0)
      sep == IF InCell THEN "!" ELSE "|"
      fence == IF InCell THEN "!===" ELSE "|==="
      w == W(n, 9) IN
  /\ p \in {"t-example", "t-listing", "t-image", "t-table", "t-sidebar", "t-para", "t-list", "t-dlist", "t-quote", "t-verse", "t-adm", "t-open", "t-literal", "t-collapsible"}
  /\ (p \in {"t-sidebar", "t-quote"} => \A i \in DOMAIN open : open[i] # SubSeq(p, 3, Len(p)))
  /\ (p = "t-open" => \A i \in DOMAIN open : open[i] # "open")
  /\ lines' = lines \o Glue \o <<t>> \o
       (CASE p = "t-example" -> <<"====", w, "====">> [] p = "t-listing" -> <<"----", w, "----">> [] p = "t-image" -> <<"image::x.png[]">> [] p = "t-table" -> <<fence, sep \o w, fence>>
          [] p = "t-sidebar" -> <<"****", w, "****">> [] p = "t-para" -> <<w>> [] p = "t-list" -> <<"* " \o w, "", "//-">> [] p = "t-dlist" -> <<w \o ":: y", "", "//-">>
          [] p = "t-quote" -> <<"____", w, "____">> [] p = "t-verse" -> <<"[verse]", w>> [] p = "t-adm" -> <<"NOTE: " \o w>> [] p = "t-open" -> <<"--", w, "--">> [] p = "t-literal" -> <<"....", w, "....">>
          [] p = "t-collapsible" -> <<"[%collapsible]", "====", w, "====">>)
  /\ IF p = "t-image" THEN Set(r) ELSE Set(Word(r))
  /\ tight' = FALSE /\ UNCHANGED <<open, sections>>

Section(ms) ==
  /\ Depth = 0
  /\ lines' = lines \o Glue \o <<"[#s" \o ToString(n) \o "]", "== " \o Written(ms, 0)>>
  /\ sections' = Append(sections, <<"s" \o ToString(n), IF ms = <<>> THEN <<W(n, 0)>> ELSE [j \in 1..Len(ms) |-> W(n, j - 1)]>>)
  /\ Set(Run(Reg, ms, 0)) /\ tight' = FALSE /\ UNCHANGED open
Xref(i) ==
  /\ i \in DOMAIN sections
  /\ lines' = lines \o Glue \o << W(n, 0) \o " <<" \o sections[i][1] \o ">> " \o W(n, 9) >>
  /\ Set([Reg EXCEPT !.text = @ \o <<W(n, 0)>> \o sections[i][2] \o <<W(n, 9)>>])
  /\ tight' = FALSE /\ UNCHANGED <<open, sections>>

Fence(k) == CASE k = "example" -> "====" [] k = "sidebar" -> "****" [] k = "quote" -> "____" [] k = "open" -> "--" [] k = "cell" -> "|==="
Open(k) ==
  /\ Depth < MaxDepth /\ (\A i \in DOMAIN open : open[i] # k)
  /\ lines' = lines \o Glue \o (IF k = "cell" THEN <<"|===", "a|">> ELSE <<Fence(k)>>)
  /\ open' = Append(open, k) /\ tight' = TRUE /\ UNCHANGED <<notes, named, text, sections>>
Close ==
  /\ Depth > 0 /\ ~tight
  /\ lines' = Append(lines, Fence(open[Depth])) /\ open' = SubSeq(open, 1, Depth - 1) /\ tight' = FALSE /\ UNCHANGED <<notes, named, text, sections>>

AllMarks(cs) == { [k |-> "def", id |-> i, c |-> c] : i \in {""} \cup Names, c \in cs } \cup { [k |-> "ref", id |-> i, c |-> ""] : i \in Names } \cup { [k |-> "inert", id |-> "", c |-> ""] }
Allowed(cs) == { m \in AllMarks(cs) : (m.k \o m.id) \in Marks }
\* an example in an example needs a longer fence
Fits(p) == p \in {"t-example", "t-collapsible"} => \A i \in DOMAIN open : open[i] # "example"
Lists(ms, k) == UNION { [1..j -> ms] : j \in 1..k }

Init == toc \in Tocs /\ n = 0 /\ open = <<>> /\ lines = <<>> /\ notes = <<>> /\ named = <<>> /\ text = <<>> /\ sections = <<>> /\ tight = FALSE
Do(ps, mss, cs) ==
  \/ \E p \in ps, ms \in mss : Fits(p) /\ (IF p = "section" THEN Section(ms) ELSE IF p \in Simple THEN Place(p, ms) ELSE p # "xref" /\ Titled(p, ms))
  \/ "xref" \in ps /\ \E i \in DOMAIN sections : Xref(i)
  \/ \E k \in cs : Open(k)
  \/ Close
Next == n < MaxLen /\ n' = n + 1 /\ UNCHANGED toc /\ Do(Places, Lists(Allowed(Contents), MaxMarks), Containers)
Some(k, x) == RandomSubset(IF Cardinality(x) < k THEN Cardinality(x) ELSE k, x)
NextSome == n < MaxLen /\ n' = n + 1 /\ UNCHANGED toc /\ Do(Some(3, Places), {<<>>} \cup Some(3, Lists(Allowed(Some(2, Contents)), MaxMarks)), Some(1, Containers))

\* ---- properties ----------------------------------------------------------------------
Marked == SelectSeq(text, LAMBDA x : x \in { "^" \o ToString(i) : i \in 1..(Len(notes) + 1) })
InOrder == Marked = [i \in 1..Len(notes) |-> "^" \o ToString(i)]
OneNote == \A i, j \in DOMAIN named : named[i][1] = named[j][1] => i = j
Shown == \A i \in DOMAIN named : named[i][2] \in 1..Len(notes)

RECURSIVE CloseAll(_)
CloseAll(o) == IF o = <<>> THEN <<>> ELSE <<Fence(o[Len(o)])>> \o CloseAll(SubSeq(o, 1, Len(o) - 1))
Header == IF toc = "none" THEN <<>> ELSE IF toc = "toc" THEN <<"= D", ":toc:", "">> ELSE <<"= D", ":toc: macro", "", "toc::[]", "">>
Case == [ lines |-> Header \o lines \o CloseAll(open), files |-> <<>>, set |-> [safe |-> "safe"], also |-> <<"crlf", "html5s">>,
          expect |-> [ notes |-> [text |-> text, notes |-> notes], diagset |-> <<>> ] ]
Emit == n > 0 /\ ~tight => PrintT("@@" \o ToJson(Case))
=============================================================================
