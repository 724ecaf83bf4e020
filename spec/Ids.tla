-------------------------------- MODULE Ids --------------------------------
(* Section ids, anchors and cross references.                                *)
(*                                                                            *)
(* The machine writes sections, blocks, anchors and references, and keeps the *)
(* ids given out so far.  An automatic id is the title's words joined by the  *)
(* separator behind the prefix, and numbered from 2 until it is new.  A       *)
(* reference is resolved against the ids of the whole document.               *)
(* TLC checks that no id is given twice (Unique) and that the automatic id is *)
(* the first free one in its sequence (Least).                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Titles, Explicit, Targets, Acts, Forms, Places, IdForms, Kinds

VARIABLES n, prefix, sep, on, anchors, order, refs, bad, lines, files, autos
vars == <<n, prefix, sep, on, anchors, order, refs, bad, lines, files, autos>>
\* anchors: the ids given out with the text of a reference to them; order: the ids in the document, duplicates included;
\* refs: the references; bad: the places of duplicate ids; on: automatic ids are switched on

WordsOf(t) == CASE t \in {"A", "a!", "*A*", "(a)", "A."} -> <<"a">> [] t \in {"A b", "A-B", "a.b", "A & b", "a - `b`", "A &amp; b"} -> <<"a", "b">>
                [] t = "A 2" -> <<"a", "2">> [] t = "a,b" -> <<"ab">> [] t = "a_b" -> <<"a_b">> [] t = "\\u00c9t\\u00e9" -> <<"\\u00e9t\\u00e9">>
                [] t = "!" -> <<>> [] t = "A_3" -> <<"a_3">>
Seen(t) == CASE t = "*A*" -> "A" [] t = "a - `b`" -> "a - b" [] t = "A &amp; b" -> "A & b" [] OTHER -> t

RECURSIVE Join(_, _)
Join(s, x) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o x \o Join(Tail(s), x)
At(id) == CHOOSE i \in DOMAIN anchors : anchors[i].id = id
Used == {anchors[i].id : i \in DOMAIN anchors}
\* a prefix that is nothing but the separator is not kept on its own
Base(t) == IF WordsOf(t) = <<>> THEN (IF prefix = "id-" THEN (IF sep = "-" THEN "id" ELSE "id-") ELSE IF prefix = sep THEN "" ELSE prefix)
           ELSE prefix \o Join(WordsOf(t), sep)
Nth(b, k) == b \o sep \o ToString(k)
RECURSIVE FirstFree(_, _)
FirstFree(b, k) == IF Nth(b, k) \in Used THEN FirstFree(b, k + 1) ELSE Nth(b, k)
Auto(t) == IF Base(t) \in Used \/ Base(t) = "" THEN FirstFree(Base(t), 2) ELSE Base(t)

Init == /\ n = 0 /\ prefix \in {"_"} /\ sep \in {"_"} /\ on = TRUE /\ anchors = <<>> /\ order = <<>> /\ refs = <<>> /\ bad = <<>> /\ lines = <<>> /\ files = <<>> /\ autos = {}

Ref1(id) == CASE id = "_a" -> "Ref pa" [] id = "_a_2" -> "Ref pa two" [] id = "_a_b" -> "Ref pa b" [] id = "_y" -> "Ref y" [] OTHER -> "Ref " \o id

\* ---- ids -----------------------------------------------------------------------
\* the ways to give a block an id: with or without a reference text
Above(f, id) == CASE f = "hash" -> <<"[#" \o id \o "]">> [] f = "anchor" -> <<"[[" \o id \o "]]">>
                  [] f = "anchortext" -> <<"[[" \o id \o "," \o Ref1(id) \o "]]">>
                  [] f = "named" -> <<"[id=" \o id \o "]">> [] f = "reftext" -> <<"[#" \o id \o ",reftext=" \o Ref1(id) \o "]">>
                  [] f = "two" -> <<"[[" \o id \o "]]", "[.role]">>
RefOf(f, id, else) == IF f \in {"anchortext", "reftext"} THEN Ref1(id) ELSE else
Add(id, text) == anchors' = Append(anchors, [id |-> id, text |-> text]) /\ order' = Append(order, id)
\* an automatic id is only given when they are switched on
AddAuto(t, text) == IF on THEN Add(Auto(t), text) /\ autos' = autos \cup { <<Auto(t), Base(t), Used>> } ELSE UNCHANGED <<anchors, order, autos>>

AutoSect(t, k) ==
  /\ "sect" \in Acts
  /\ AddAuto(t, Seen(t))
  /\ lines' = lines \o << (IF k = 1 THEN "== " ELSE "=== ") \o t, "" >>
  /\ UNCHANGED <<prefix, sep, on, refs, bad, files>>
Discrete(t) ==
  /\ "discrete" \in Acts
  /\ AddAuto(t, "?")
  /\ lines' = lines \o <<"[discrete]", "== " \o t, "">>
  /\ UNCHANGED <<prefix, sep, on, refs, bad, files>>
ExplSect(id, f) ==
  /\ "explsect" \in Acts /\ id \notin Used
  /\ Add(id, RefOf(f, id, "Head")) /\ lines' = lines \o Above(f, id) \o <<"== Head", "">>
  /\ UNCHANGED <<prefix, sep, on, refs, bad, files, autos>>
Block(id, f, kind, titled) ==
  /\ "block" \in Acts /\ id \notin Used
  /\ Add(id, RefOf(f, id, IF titled THEN "Cap" ELSE "[" \o id \o "]"))
  /\ lines' = lines \o Above(f, id) \o (IF titled THEN <<".Cap">> ELSE <<>>) \o
       (CASE kind = "para" -> <<"text">> [] kind = "list" -> <<"* item">> [] kind = "listing" -> <<"----", "text", "----">>
          [] kind = "quote" -> <<"____", "text", "____">> [] kind = "open" -> <<"--", "text", "--">> [] kind = "dlist" -> <<"t:: d">>
          [] kind = "sidebar" -> <<"****", "text", "****">>) \o <<"">>
  /\ UNCHANGED <<prefix, sep, on, refs, bad, files, autos>>
Inline(id, f, pl) ==
  /\ "inline" \in Acts /\ id \notin Used
  /\ LET m == CASE f = "anchor" -> "[[" \o id \o "]]w" [] f = "anchortext" -> "[[" \o id \o "," \o Ref1(id) \o "]]w"
                [] f = "macro" -> "anchor:" \o id \o "[]w" [] f = "macrotext" -> "anchor:" \o id \o "[" \o Ref1(id) \o "]w"
                [] f = "span" -> "[#" \o id \o "]#span#"
                [] f = "bold" -> "[#" \o id \o "]*span*" [] f = "mono" -> "[#" \o id \o ".r]``span``" IN
     lines' = lines \o (CASE pl = "para" -> <<"text " \o m, "">> [] pl = "line" -> <<"text " \o m, "next line", "">> [] pl = "item" -> <<"* " \o m, "", "//-", "">>
                          [] pl = "cell" -> <<"|===", "|" \o m, "|===", "">> [] pl = "acell" -> <<"|===", "a|" \o m, "|===", "">>
                          [] pl = "note" -> <<"NOTE: text " \o m, "">>)
  /\ Add(id, CASE f \in {"anchortext", "macrotext"} -> Ref1(id) [] f \in {"span", "bold", "mono"} -> "span" [] OTHER -> "[" \o id \o "]")
  /\ UNCHANGED <<prefix, sep, on, refs, bad, files, autos>>

\* an id that is taken is reported and does not change what it refers to
Dup(id, kind) ==
  /\ "dup" \in Acts /\ id \in Used /\ anchors[At(id)].text # "?"   \* discrete headings are not known as anchors
  /\ order' = Append(order, id) /\ bad' = Append(bad, <<"main.adoc", Len(lines) + 1>>)
  /\ lines' = lines \o (CASE kind = "sect" -> <<"[#" \o id \o "]", "== Again", "">> [] kind = "para" -> <<"[[" \o id \o "]]", "again", "">>
                            [] kind = "inline" -> <<"again [[" \o id \o "]]w", "">> [] kind = "list" -> <<"[#" \o id \o "]", "* again", "", "//-", "">>)
  /\ UNCHANGED <<prefix, sep, on, anchors, refs, files, autos>>
\* an anchor in an included file
IncAnchor(id) ==
  /\ "inline" \in Acts /\ "inc" \in Places /\ id \notin Used
  /\ Add(id, Ref1(id))
  /\ lines' = lines \o <<"include::" \o id \o ".adoc[]", "">> /\ files' = Append(files, <<"/base/" \o id \o ".adoc", <<"[[" \o id \o "," \o Ref1(id) \o "]]", "text">> >>)
  /\ UNCHANGED <<prefix, sep, on, refs, bad, autos>>

\* ---- references ------------------------------------------------------------------
Ref(id, f, pl) ==
  LET m == CASE f = "short" -> "<<" \o id \o ">>" [] f = "shorttext" -> "<<" \o id \o ",Own>>" [] f = "hash" -> "<<#" \o id \o ">>"
             [] f = "macro" -> "xref:" \o id \o "[]" [] f = "macrotext" -> "xref:" \o id \o "[Own]" [] f = "emptytext" -> "<<" \o id \o ",>>"
      ls == CASE pl = "para" -> <<"see " \o m, "">> [] pl = "item" -> <<"* " \o m, "", "//-", "">> [] pl = "cell" -> <<"|===", "|" \o m, "|===", "">>
              [] pl = "acell" -> <<"|===", "a|" \o m, "|===", "">> [] pl = "title" -> <<"." \o m, "text", "">> [] pl = "dt" -> <<m \o ":: d", "", "//-", "">>
              [] pl = "strong" -> <<"see *" \o m \o "* x", "">> [] pl = "quote" -> <<"____", m, "____", "">>
              [] pl = "inc" -> <<"include::r" \o ToString(n) \o ".adoc[]", "">> [] pl = "sect" -> <<"[#r" \o ToString(n) \o "]", "== See " \o m, "">>
      ln == Len(lines) + (IF pl \in {"cell", "acell", "quote", "sect"} THEN 2 ELSE 1) IN
  /\ "ref" \in Acts
  /\ refs' = Append(refs, [id |-> id, own |-> f \in {"shorttext", "macrotext"}, at |-> IF pl = "inc" THEN <<"r" \o ToString(n) \o ".adoc", 1>> ELSE <<"main.adoc", ln>>])
  /\ files' = IF pl = "inc" THEN Append(files, <<"/base/r" \o ToString(n) \o ".adoc", <<"see " \o m>> >>) ELSE files
  /\ lines' = lines \o ls
  /\ order' = IF pl = "sect" THEN Append(order, "r" \o ToString(n)) ELSE order
  /\ UNCHANGED <<prefix, sep, on, anchors, bad, autos>>

Prefix(p) == /\ "prefix" \in Acts /\ p # prefix /\ prefix' = p /\ lines' = lines \o << IF p = "_" THEN ":idprefix!:" ELSE IF p = "" THEN ":idprefix:" ELSE ":idprefix: " \o p, "">>
             /\ UNCHANGED <<sep, on, anchors, order, refs, bad, files, autos>>
Sepr(s) == /\ "prefix" \in Acts /\ s # sep /\ sep' = s /\ lines' = lines \o << IF s = "_" THEN ":idseparator!:" ELSE IF s = "" THEN ":idseparator:" ELSE ":idseparator: " \o s, "">>
           /\ UNCHANGED <<prefix, on, anchors, order, refs, bad, files, autos>>
Switch == /\ "prefix" \in Acts /\ on' = ~on /\ lines' = lines \o << IF on THEN ":sectids!:" ELSE ":sectids:", "">>
          /\ UNCHANGED <<prefix, sep, anchors, order, refs, bad, files, autos>>

Step ==
  \/ \E t \in Titles : AutoSect(t, 1) \/ Discrete(t)
  \/ \E id \in Explicit, f \in IdForms : ExplSect(id, f) \/ \E k \in Kinds, ti \in BOOLEAN :
       (ti => k \notin {"listing"}) /\ Block(id, f, k, ti)
  \/ \E id \in Explicit, f \in {"anchor", "anchortext", "macro", "macrotext", "span", "bold", "mono"}, pl \in {"para", "line", "item", "cell", "acell", "note"} : pl \in Places /\ Inline(id, f, pl)
  \/ \E id \in Targets, f \in Forms, pl \in Places \ {"note", "line"} : Ref(id, f, pl)
  \/ \E id \in Used, k \in {"sect", "para", "inline", "list"} : Dup(id, k)
  \/ \E id \in Explicit : IncAnchor(id)
  \/ Switch
  \/ \E p \in {"_", "", "id-"} : Prefix(p)
  \/ \E s \in {"_", "", "-", "."} : Sepr(s)
Next == n < MaxLen /\ n' = n + 1 /\ Step

\* ---- properties --------------------------------------------------------------------
Unique == \A i, j \in DOMAIN anchors : i # j => anchors[i].id # anchors[j].id
Least == \A a \in autos : a[1] \notin a[3] /\ (a[1] # a[2] /\ a[2] # "" => a[2] \in a[3])

\* ---- the document ---------------------------------------------------------------------
Text(r) == IF r.own THEN "Own" ELSE IF r.id \in Used THEN anchors[At(r.id)].text ELSE "[" \o r.id \o "]"
Missing == {i \in DOMAIN refs : refs[i].id \notin Used}
RECURSIVE SetSeq(_)
SetSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SetSeq(s \ {x})
Case == [ lines |-> lines, files |-> files, set |-> [safe |-> "safe"], also |-> <<"crlf", "html5s">>,
          expect |-> [ ids |-> order,
                       hrefs |-> [i \in DOMAIN refs |-> <<"#" \o refs[i].id, Text(refs[i])>>],
                       diagset |-> SetSeq({refs[i].at : i \in Missing} \cup {bad[i] : i \in DOMAIN bad}) ] ]
\* references to discrete headings are not supported
NoDiscreteRef == \A i \in DOMAIN refs : refs[i].id \in Used => anchors[At(refs[i].id)].text # "?"
Emit == n > 0 /\ NoDiscreteRef => PrintT("@@" \o ToJson(Case))
=============================================================================
