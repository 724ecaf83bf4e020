------------------------------- MODULE Blocks -------------------------------
(* Delimited blocks: pairing of delimiters, nesting, verbatim content.       *)
(*                                                                            *)
(* The machine reads one line per step.  Only the delimiter of the innermost  *)
(* open block closes anything; in a verbatim block every other line is        *)
(* content.  TLC checks that closing lines are the first of their kind at     *)
(* their nesting (FirstMatch), that blocks never overlap (Laminar), and that  *)
(* every line belongs to one block (Accounted).                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Delims, Styles, Texts, Wraps, Titles

VARIABLES wrap, n, open, nodes, tight, style, title, lines, spans
vars == <<wrap, n, open, nodes, tight, style, title, lines, spans>>
\* open: stack of [d, k, node, line]; spans: <<first, last, d, depth>> of closed blocks

W(i) == "w" \o ToString(i)
Base(d) == CASE d \in {"----", "-----", "```"} -> "listing" [] d \in {"....", "......"} -> "literal"
             [] d = "++++" -> "pass" [] d \in {"////", "/////"} -> "comment"
             [] d \in {"====", "======"} -> "example" [] d \in {"****", "*****"} -> "sidebar"
             [] d \in {"____", "______"} -> "quote" [] d = "--" -> "open"
\* what a style makes of a block
Of(d, s) == CASE s = "" -> Base(d)
              [] s \in {"NOTE", "WARNING"} -> s
              [] s = "source" -> "listing" [] s = "abstract" -> "quote"
              [] OTHER -> s
\* the styles a kind of block takes
Fits(d, s) == \/ s = ""
              \/ Base(d) = "open" /\ s \in {"NOTE", "WARNING", "listing", "literal", "source", "quote", "verse", "sidebar", "example", "abstract", "comment", "pass"}
              \/ Base(d) = "example" /\ s \in {"NOTE", "WARNING"}
              \/ Base(d) = "quote" /\ s = "verse"
              \/ Base(d) = "listing" /\ s \in {"source", "literal", "listing"}
              \/ Base(d) = "literal" /\ s \in {"listing", "source", "literal"}
Verb(k) == k \in {"listing", "literal", "pass", "comment", "verse"}

Depth == Len(open)
Top == open[Depth]
InVerb == Depth > 0 /\ Verb(Top.k)
Cur == IF Depth = 0 THEN 0 ELSE Top.node
Ln == Len(lines) + 1
New(k, p, t) == [k |-> k, p |-> p, ls |-> <<>>, title |-> t]

Init == /\ wrap \in Wraps /\ n = 0 /\ open = <<>> /\ nodes = <<>> /\ tight = 0 /\ style = "none" /\ title = ""
        /\ lines = <<>> /\ spans = {}

\* a line of content of a verbatim block
Keep(t) == /\ nodes' = [nodes EXCEPT ![Cur].ls = Append(@, t)] /\ lines' = Append(lines, t)
           /\ UNCHANGED <<open, tight, style, title, spans>>

Delim(d) ==
  IF Depth > 0 /\ Top.d = d
  THEN \* closes the innermost block; attributes just above it would be attached to nothing
       /\ style = "none"
       /\ open' = SubSeq(open, 1, Depth - 1) /\ tight' = 0 /\ lines' = Append(lines, d)
       /\ spans' = spans \cup { <<Top.line, Ln, d, Depth, Top.k>> }
       /\ UNCHANGED <<nodes, style, title>>
  ELSE IF InVerb THEN Keep(d)
  ELSE LET s == IF style = "none" THEN "" ELSE style IN
       /\ Fits(d, s)
       /\ nodes' = Append(nodes, New(Of(d, s), Cur, title))
       /\ open' = Append(open, [d |-> d, k |-> Of(d, s), node |-> Len(nodes) + 1, line |-> Ln])
       /\ tight' = 0 /\ style' = "none" /\ title' = "" /\ lines' = Append(lines, d) /\ UNCHANGED spans

\* words; markup like lines are only written into verbatim blocks
Shown(t) == CASE t = "word" -> W(n) [] t = "item" -> "* " \o W(n) [] t = "head" -> "== " \o W(n) [] t = "entry" -> ":a: " \o W(n)
              [] t = "note" -> "// " \o W(n) [] t = "attr" -> "[." \o W(n) \o "]" [] t = "dot" -> "." \o W(n) [] t = "in" -> "  " \o W(n)
              [] t = "plus" -> "+" [] t = "table" -> "|===" [] t = "long" -> "-------" [] t = "short" -> "---" [] t = "two" -> "//" [] t = "macro" -> "image::" \o W(n) \o "[]"
              [] t = "dist" -> W(n) \o " ----" [] t = "tail" -> "----" \o W(n) [] t = "ind" -> " ----" [] t = "cont" -> W(n) \o " +"
Line(t) ==
  IF InVerb THEN (Top.k = "verse" => t # "cont") /\ (wrap = "cell" => t \notin {"table", "note", "two"}) /\ Keep(Shown(t))
  ELSE /\ t \in {"word", "note", "in", "head"} /\ lines' = Append(lines, Shown(t))
       /\ (t = "in" => tight # 0) \* (else a literal paragraph)
       /\ (t = "note" => style = "none")
       /\ (t = "head" => Depth > 0 /\ style = "none" /\ wrap # "cell")
       /\ (style \in {"none", ""} \/ (style = "NOTE" /\ t = "word"))
       /\ UNCHANGED <<open, spans>>
       /\ IF t = "note" THEN UNCHANGED <<nodes, tight, style, title>>  \* a comment line
          ELSE /\ style' = "none" /\ title' = ""
               /\ IF tight # 0
                  THEN nodes' = [nodes EXCEPT ![tight].ls = Append(@, IF t = "in" THEN W(n) ELSE Shown(t))] /\ UNCHANGED tight
                  ELSE nodes' = Append(nodes, [New(IF style = "NOTE" THEN "padm" ELSE "p", Cur, title) EXCEPT !.ls = <<Shown(t)>>]) /\ tight' = Len(nodes) + 1

Blank == IF InVerb THEN Keep("")
         ELSE /\ style = "none" /\ lines # <<>> /\ lines' = Append(lines, "") /\ tight' = 0 /\ UNCHANGED <<open, nodes, style, title, spans>>

\* block attributes and titles
Meta(s) ==
  /\ ~InVerb /\ style = "none" /\ tight = 0
  /\ style' = s
  /\ \E t \in Titles :
       /\ (t # "" => s \in {"", "quote", "listing", "sidebar"})
       /\ title' = t
       /\ lines' = lines \o (IF t = "" THEN <<>> ELSE <<"." \o t>>) \o
                   (IF s = "" THEN IF t = "" THEN <<"[.role]">> ELSE <<>> ELSE <<"[" \o s \o "]">>)
  /\ UNCHANGED <<open, nodes, tight, spans>>

Step == \/ \E d \in Delims : Delim(d)
        \/ \E t \in Texts : Line(t)
        \/ Blank
        \/ \E s \in Styles : Meta(s)
\* a title makes an example or a listing captioned: not here
Uncaptioned == \A i \in DOMAIN nodes : nodes[i].title # "" => nodes[i].k \notin {"example", "pass", "comment", "p"}
Next == n < MaxLen /\ n' = n + 1 /\ UNCHANGED wrap /\ Step /\ Uncaptioned'

\* ---- properties ----------------------------------------------------------------
\* the nesting depth of a line: the blocks begun before it and not closed before
FirstMatch == \A s \in spans : \A l \in (s[1] + 1)..(s[2] - 1) : lines[l] = s[3] =>
                 \/ \E t \in spans : t[4] > s[4] /\ t[1] <= l /\ l <= t[2] /\ s[1] < t[1] /\ t[2] < s[2]
Laminar == \A s, t \in spans : s[2] < t[1] \/ t[2] < s[1] \/ (s[1] < t[1] /\ t[2] < s[2]) \/ (t[1] < s[1] /\ s[2] < t[2]) \/ s = t
VerbLeaf == \A s, t \in spans : Verb(s[5]) => ~(s[1] < t[1] /\ t[2] < s[2])
Accounted == Len(lines) >= Cardinality(UNION {{s[1], s[2]} : s \in spans} \cup {open[i].line : i \in DOMAIN open})

\* ---- the tree -------------------------------------------------------------------
Kids(i) == {j \in DOMAIN nodes : nodes[j].p = i}
RECURSIVE Asc(_)
Asc(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Asc(s \ {m})
RECURSIVE Join(_, _), TrimL(_), TrimR(_)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
TrimL(s) == IF s # <<>> /\ s[1] = "" THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] = "" THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Content(i) == Join(TrimR(TrimL(nodes[i].ls)), "\n")
\* raw output is compared up to white space
RECURSIVE Strip(_), Squeeze(_)
Strip(t) == IF t # "" /\ SubSeq(t, 1, 1) = " " THEN Strip(SubSeq(t, 2, Len(t))) ELSE t
Squeeze(s) == IF s = <<>> THEN <<>> ELSE IF Strip(s[1]) = "" THEN Squeeze(Tail(s)) ELSE <<Strip(s[1])>> \o Squeeze(Tail(s))
Raw(i) == Join(Squeeze(nodes[i].ls), " ")
RECURSIVE Node(_)
\* adjacent raw output runs together
Glue(a, b) == IF a # <<>> /\ b # <<>> /\ a[1][1] = "text" /\ b[1][1] = "text" /\ Len(a) = 1
              THEN << <<"text", a[1][2] \o b[1][2]>> >> \o Tail(b) ELSE a \o b
NodeSeq(s) == LET RECURSIVE Go(_)
                  Go(t) == IF t = <<>> THEN <<>> ELSE Glue(Node(t[1]), Go(Tail(t))) IN Go(s)
Ttl(i) == IF nodes[i].title = "" THEN <<>> ELSE << <<"title", nodes[i].title>> >>
Node(i) ==
  LET k == nodes[i].k kids == NodeSeq(Asc(Kids(i))) IN
  CASE k = "p" -> << <<"p", Join(nodes[i].ls, " ")>> >>
    [] k = "padm" -> << <<"adm", "note", <<"p", Join(nodes[i].ls, " ")>>>> >>
    [] k \in {"NOTE", "WARNING"} -> << <<"adm", IF k = "NOTE" THEN "note" ELSE "warning">> \o
           (IF Len(kids) = 1 /\ kids[1][1] = "text" THEN << <<"p", kids[1][2]>> >> ELSE kids) >>
    [] k \in {"listing", "literal", "verse"} -> Ttl(i) \o << <<k, Content(i)>> >>
    [] k = "comment" -> <<>>
    [] k = "pass" -> IF Raw(i) = "" THEN <<>> ELSE << <<"text", Raw(i)>> >>
    [] OTHER -> Ttl(i) \o << <<k>> \o kids >>
Body == NodeSeq(Asc(Kids(0)))
Outline == CASE wrap = "none" -> Body
             [] wrap = "cell" -> << <<"table", <<"tbody", << << <<"td", 1, 1, Body>> >> >> >> >> >>
             [] wrap = "example" -> << <<"example">> \o Body >>
Lines == CASE wrap = "none" -> lines [] wrap = "cell" -> <<"|===", "a|">> \o lines \o <<"|===">>
           [] wrap = "example" -> <<"=======">> \o lines \o <<"=======">>
Off == IF wrap = "none" THEN 0 ELSE IF wrap = "cell" THEN 2 ELSE 1
Unclosed == [i \in DOMAIN open |-> <<"main.adoc", open[i].line + Off>>] \o
            (IF wrap = "example" /\ open # <<>> THEN << <<"main.adoc", 1>> >> ELSE <<>>)
Case == [ lines |-> Lines, set |-> [safe |-> "safe"], also |-> <<"crlf", "noeol">> \o
            \* (a cell of paragraphs reads the same as a simple one in html5s)
            (IF wrap # "cell" \/ \E i \in DOMAIN nodes : nodes[i].p = 0 /\ nodes[i].k \notin {"p", "comment", "pass"} THEN <<"html5s">> ELSE <<>>),
          expect |-> [outline |-> Outline, diagset |-> Unclosed] ]
\* an unclosed block takes what surrounds it along: no wrapping then
Emit == n > 0 /\ style = "none" /\ (open # <<>> => wrap = "none") => PrintT("@@" \o ToJson(Case))
=============================================================================
