------------------------------- MODULE Lists -------------------------------
(* Lists: nesting by marker history, continuations, separation.              *)
(*                                                                            *)
(* The machine writes one line group per step and keeps the stack of open     *)
(* lists.  An item joins the open list with its marker, closing those nested  *)
(* in it, or opens a list in the item written last.  TLC checks in every      *)
(* state that the open markers are distinct (Distinct), that the tree in      *)
(* document order is what was written (InOrder), and that an item is placed   *)
(* by the declarative rule (Rule).                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,   \* number of actions
          Markers,  \* "*" "**" "***" "-" "." ".." "1." "::" ":::" ";;"
          Acts,     \* kinds of action
          Indents,  \* spaces before an item: {0}, {0, 2}
          Wraps     \* where the lists are: "none", "example", "cell", "sect"

VARIABLES wrap, n, stack, nodes, at, lines, prevs, written
vars == <<wrap, n, stack, nodes, at, lines, prevs, written>>

Dl(m) == m \in {"::", ":::", ";;"}
Type(m) == IF Dl(m) THEN "dl" ELSE IF m \in {"*", "**", "***", "-"} THEN "ul" ELSE "ol"
Sp(k) == CASE k = 0 -> "" [] k = 1 -> " " [] k = 2 -> "  " [] k = 3 -> "   "
T(p, i) == p \o ToString(i)
Last == Len(nodes)
Open == stack # <<>>
Top == stack[Len(stack)]
\* the item new content belongs to
Cur == Top.item
Has(m) == \E i \in DOMAIN stack : stack[i].m = m
Pos(m) == CHOOSE i \in DOMAIN stack : stack[i].m = m

Init == /\ wrap \in Wraps /\ n = 0 /\ stack = <<>> /\ nodes = <<>> /\ at = "none" /\ lines = <<>>
        /\ prevs = <<>> /\ written = <<>>

\* ---- items ---------------------------------------------------------------------
\* nodes: [k |-> "list", p, t], [k |-> "li", p, terms, text], [k |-> "b", p, node]
Put(m, terms, text) ==
  IF Has(m)
  THEN LET i == Pos(m) IN
       [ nodes |-> Append(nodes, [k |-> "li", p |-> stack[i].list, m |-> m, terms |-> terms, text |-> text]),
         stack |-> Append(SubSeq(stack, 1, i - 1), [m |-> m, list |-> stack[i].list, item |-> Last + 1]) ]
  ELSE [ nodes |-> nodes \o << [k |-> "list", p |-> IF Open THEN Cur ELSE 0, m |-> m, terms |-> <<>>, text |-> ""],
                               [k |-> "li", p |-> Last + 1, m |-> m, terms |-> terms, text |-> text] >>,
         stack |-> Append(stack, [m |-> m, list |-> Last + 1, item |-> Last + 2]) ]

Line(m, ind, t) == Sp(ind) \o (IF Dl(m) THEN T("k", n) \o m \o t ELSE m \o t)
Enter(m, ind, before) ==
  LET r == Put(m, IF Dl(m) THEN <<T("k", n)>> ELSE <<>>, T("t", n)) IN
  /\ lines' = lines \o before \o <<Line(m, ind, " " \o T("t", n))>>
  /\ nodes' = r.nodes /\ stack' = r.stack /\ at' = "item"
  /\ prevs' = Append(prevs, <<Len(r.nodes), [i \in DOMAIN stack |-> stack[i].list], IF Open THEN Cur ELSE 0>>)
  /\ written' = written \o (IF Dl(m) THEN <<T("k", n)>> ELSE <<>>) \o <<T("t", n)>>

Item(m, ind) ==
  /\ "item" \in Acts
  \* what follows an attached paragraph directly is part of it, unless it is an item of an open list
  /\ (at = "apara" => Has(m))
  /\ Enter(m, ind, <<>>)

\* a term with its text on the next line, after a blank line, or two terms
Term(m, form) ==
  LET two == form \in {"two", "twogap"}
      ts == IF two THEN <<T("k", n), T("l", n)>> ELSE <<T("k", n)>>
      r == Put(m, ts, IF form = "empty" THEN "" ELSE T("t", n)) IN
  /\ "term" \in Acts /\ Dl(m)
  /\ (at = "apara" => Has(m))
  /\ lines' = lines \o (CASE form = "next" -> <<T("k", n) \o m, T("t", n)>>
                          [] form = "indent" -> <<T("k", n) \o m, "  " \o T("t", n)>>
                          [] form = "gap" -> <<T("k", n) \o m, "", T("t", n)>>
                          [] form = "two" -> <<T("k", n) \o m, T("l", n) \o m \o " " \o T("t", n)>>
                          [] form = "twogap" -> <<T("k", n) \o m, "", T("l", n) \o m \o " " \o T("t", n)>>
                          [] form = "empty" -> <<T("k", n) \o m>>)
  /\ nodes' = r.nodes /\ stack' = r.stack /\ at' = (IF form = "empty" THEN "term" ELSE "item")
  /\ prevs' = Append(prevs, <<Len(r.nodes), [i \in DOMAIN stack |-> stack[i].list], IF Open THEN Cur ELSE 0>>)
  /\ written' = written \o ts \o (IF form = "empty" THEN <<>> ELSE <<T("t", n)>>)

\* attributes directly above an item: of the list it opens
Attred(m) ==
  /\ "attr" \in Acts /\ at = "item" /\ ~Has(m) /\ ~Dl(m) /\ Enter(m, 0, <<"[.role]">>)

\* ---- more text and blocks of the item ----------------------------------------------
Wrapped(f) ==
  /\ "wrap" \in Acts /\ at = "item"
  /\ lines' = lines \o (CASE f = "plain" -> <<T("w", n)>> [] f = "indent" -> <<"  " \o T("w", n)>>
                          [] f = "comment" -> <<"// note">> [] f = "both" -> <<"// note", T("w", n)>>)
  /\ nodes' = (IF f = "comment" THEN nodes ELSE [nodes EXCEPT ![Cur].text = nodes[Cur].text \o " " \o T("w", n)])
  /\ written' = (IF f = "comment" THEN written ELSE Append(written, T("w", n)))
  /\ UNCHANGED <<stack, at, prevs>>

Inner == {"para", "para2", "listing", "example", "open", "sidebar", "lists", "literal", "quote"}
Src(b) == CASE b = "para" -> <<T("p", n)>> [] b = "para2" -> <<T("p", n), T("q", n)>>
            [] b = "listing" -> <<"----", "* " \o T("p", n), "", "+", T("q", n), "----">>
            [] b = "literal" -> <<" " \o T("p", n)>>
            [] b = "example" -> <<"====", T("p", n), "", T("q", n), "====">>
            [] b = "open" -> <<"--", T("p", n), "--">>
            [] b = "sidebar" -> <<"****", "* " \o T("p", n), "+", T("q", n), "****">>
            [] b = "quote" -> <<"____", "k:: " \o T("p", n), "* " \o T("q", n), "____">>
            \* the lists of a block are its own
            [] b = "lists" -> <<"====", "- " \o T("p", n), "* " \o T("q", n), "- " \o T("r", n), "====">>
Out(b) == CASE b = "para" -> <<"p", T("p", n)>> [] b = "para2" -> <<"p", T("p", n) \o " " \o T("q", n)>>
            [] b = "listing" -> <<"listing", "* " \o T("p", n) \o "\n\n+\n" \o T("q", n)>>
            [] b = "literal" -> <<"literal", T("p", n)>>
            [] b = "example" -> <<"example", <<"p", T("p", n)>>, <<"p", T("q", n)>>>>
            [] b = "open" -> <<"open", <<"p", T("p", n)>>>>
            [] b = "sidebar" -> <<"sidebar", <<"ul", <<"li", T("p", n), <<"p", T("q", n)>>>>>>>>
            [] b = "quote" -> <<"quote", <<"dl", <<"dt", "k">>, <<"dd", T("p", n), <<"ul", <<"li", T("q", n)>>>>>>>>>>
            [] b = "lists" -> <<"example", <<"ul", <<"li", T("p", n), <<"ul", <<"li", T("q", n)>>>>>>, <<"li", T("r", n)>>>>>>
Wrd(b) == CASE b \in {"para", "open", "literal"} -> <<T("p", n)>> [] b = "lists" -> <<T("p", n), T("q", n), T("r", n)>>
            [] OTHER -> <<T("p", n), T("q", n)>>
Attach(b) ==
  /\ "attach" \in Acts /\ Open /\ at \in {"item", "apara", "ablk"}
  /\ lines' = lines \o <<"+">> \o Src(b)
  /\ nodes' = Append(nodes, [k |-> "b", p |-> Cur, node |-> Out(b), m |-> "", terms |-> <<>>, text |-> ""])
  /\ written' = written \o Wrd(b)
  /\ at' = (IF b \in {"para", "para2", "literal"} THEN "apara" ELSE "ablk")
  /\ UNCHANGED <<stack, prevs>>
\* a list attached by a continuation is a nested list
AttachList(m) ==
  /\ "attachlist" \in Acts /\ Open /\ at \in {"item", "apara", "ablk"} /\ ~Has(m) /\ Enter(m, 0, <<"+">>)

Blank(k) ==
  /\ "blank" \in Acts /\ Open /\ at \in {"item", "apara", "ablk"}
  /\ lines' = lines \o [i \in 1..k |-> ""] /\ at' = "blank"
  /\ UNCHANGED <<stack, nodes, prevs, written>>

\* ---- what closes the lists ----------------------------------------------------------
Close(ls, ns, ws) ==
  /\ lines' = lines \o ls \o <<"">>
  /\ nodes' = nodes \o [i \in DOMAIN ns |-> [k |-> "b", p |-> 0, node |-> ns[i], m |-> "", terms |-> <<>>, text |-> ""]]
  /\ written' = written \o ws /\ stack' = <<>> /\ at' = "none" /\ UNCHANGED prevs
Sep(f) ==
  /\ "sep" \in Acts /\ Open /\ at = "blank"
  /\ CASE f = "comment" -> Close(<<"//-">>, <<>>, <<>>)
       [] f = "para" -> Close(<<T("p", n)>>, << <<"p", T("p", n)>> >>, <<T("p", n)>>)
       [] f = "listing" -> Close(<<"----", T("p", n), "----">>, << <<"listing", T("p", n)>> >>, <<T("p", n)>>)
       [] f = "block" -> Close(<<"////", T("p", n), "////">>, <<>>, <<>>)
\* a delimited block needs a continuation to belong to an item
Tight(f) ==
  /\ "sep" \in Acts /\ Open /\ at \in {"item", "apara", "ablk"}
  /\ CASE f = "listing" -> Close(<<"----", T("p", n), "----">>, << <<"listing", T("p", n)>> >>, <<T("p", n)>>)
       [] f = "example" -> Close(<<"====", T("p", n), "====">>, << <<"example", <<"p", T("p", n)>>>> >>, <<T("p", n)>>)
\* attributes after a blank line start a new list
AttrSep(m, f) ==
  /\ "sep" \in Acts /\ Open /\ at = "blank" /\ wrap # "cell"
  /\ lines' = lines \o <<f, Line(m, 0, " " \o T("t", n))>>
  /\ nodes' = nodes \o << [k |-> "list", p |-> 0, m |-> m, terms |-> <<>>, text |-> ""],
                          [k |-> "li", p |-> Last + 1, m |-> m, terms |-> IF Dl(m) THEN <<T("k", n)>> ELSE <<>>, text |-> T("t", n)] >>
  /\ stack' = << [m |-> m, list |-> Last + 1, item |-> Last + 2] >> /\ at' = "item"
  /\ prevs' = Append(prevs, <<Last + 2, <<>>, 0>>)
  /\ written' = written \o (IF Dl(m) THEN <<T("k", n)>> ELSE <<>>) \o <<T("t", n)>>

Step ==
  \/ \E m \in Markers, ind \in Indents : Item(m, ind)
  \/ \E m \in Markers, f \in {"next", "indent", "gap", "two", "twogap", "empty"} : Term(m, f)
  \/ \E m \in Markers : Attred(m) \/ AttachList(m)
  \/ \E f \in {"plain", "indent", "comment", "both"} : Wrapped(f)
  \/ \E b \in Inner : Attach(b)
  \/ \E k \in 1..2 : Blank(k)
  \/ \E f \in {"comment", "para", "listing", "block"} : Sep(f)
  \/ \E f \in {"listing", "example"} : Tight(f)
  \/ \E m \in Markers, f \in {"[]", "[.role]"} : AttrSep(m, f)
\* after a term without text only an item, or a list in it, can follow
Next == /\ n < MaxLen /\ n' = n + 1 /\ UNCHANGED wrap
        /\ (at = "term" => \E m \in Markers : Item(m, 0) /\ ~(Top.m = m))
        /\ (at # "term" => Step)

\* ---- properties -----------------------------------------------------------------------
Distinct == \A i, j \in DOMAIN stack : i # j => stack[i].m # stack[j].m
Kids(i) == {j \in DOMAIN nodes : nodes[j].p = i}
RECURSIVE Asc(_)
Asc(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Asc(s \ {m})
RECURSIVE Pre(_)
PreSeq(s) == LET RECURSIVE Go(_)
                 Go(t) == IF t = <<>> THEN <<>> ELSE <<t[1]>> \o Pre(t[1]) \o Go(Tail(t)) IN Go(s)
Pre(i) == PreSeq(Asc(Kids(i)))
InOrder == Pre(0) = [i \in DOMAIN nodes |-> i]
\* an item is in the list with its marker on the path of the item before, or
\* else in a list that item contains
Rule == \A e \in DOMAIN prevs :
          LET i == prevs[e][1] path == prevs[e][2] last == prevs[e][3]
              same == {j \in DOMAIN path : nodes[path[j]].m = nodes[i].m} IN
          IF same # {} THEN \E j \in same : nodes[i].p = path[j]
          ELSE nodes[nodes[i].p].p = last /\ nodes[i].p = i - 1

\* ---- the tree ---------------------------------------------------------------------------
RECURSIVE Node(_)
NodeSeq(s) == LET RECURSIVE Go(_)
                  Go(t) == IF t = <<>> THEN <<>> ELSE Node(t[1]) \o Go(Tail(t)) IN Go(s)
Node(i) ==
  CASE nodes[i].k = "b" -> << nodes[i].node >>
    [] nodes[i].k = "list" -> << <<Type(nodes[i].m)>> \o NodeSeq(Asc(Kids(i))) >>
    [] nodes[i].k = "li" ->
         IF Dl(nodes[i].m)
         THEN [j \in DOMAIN nodes[i].terms |-> <<"dt", nodes[i].terms[j]>>] \o
              (IF nodes[i].text = "" /\ Kids(i) = {} THEN <<>> ELSE << <<"dd", nodes[i].text>> \o NodeSeq(Asc(Kids(i))) >>)
         ELSE << <<"li", nodes[i].text>> \o NodeSeq(Asc(Kids(i))) >>
Body == NodeSeq(Asc(Kids(0)))
Outline == CASE wrap = "none" -> Body
             [] wrap = "example" -> << <<"example">> \o Body >>
             [] wrap = "sect" -> << <<"sect", 1, "_s", "s">> \o Body >>
             [] wrap = "cell" -> << <<"table", <<"tbody", << << <<"td", 1, 1, Body>> >> >> >> >> >>
Lines == CASE wrap = "none" -> lines
           [] wrap = "example" -> <<"======">> \o lines \o <<"======">>
           [] wrap = "sect" -> <<"== s", "">> \o lines
           [] wrap = "cell" -> <<"|===", "a|">> \o lines \o <<"|===">>
Case == [ lines |-> Lines, set |-> [safe |-> "safe"], also |-> <<"crlf", "html5s", "noeol">>,
          expect |-> [outline |-> Outline, diagset |-> <<>>] ]
Emit == n > 0 /\ nodes # <<>> => PrintT("@@" \o ToJson(Case))
=============================================================================
