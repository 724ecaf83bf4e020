----------------------------- MODULE TagSelect ------------------------------
(* include::file[tags=...]: which lines of a file with tag regions are       *)
(* selected.  The file is written line by line, then read line by line with  *)
(* a stack of the tag regions that matter for the selection.                 *)
(*                                                                           *)
(* `Picked' gives the meaning declaratively for properly nested files: a     *)
(* line is judged by the chain of tag regions around it, from the outside in.*)
(* TLC checks that the reader agrees (Agree) and that naming a tag and its   *)
(* negation partition the lines of a file (Partition).                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLines, MaxSel, Tags, SelSet, Nested, Forms, Blanks
VARIABLES file,   \* sequence of [k, t]
          sel,    \* sequence of [t, on]   the selectors, in order
          single, \* TRUE: given as tag=, FALSE: tags=
          open,   \* tags open while writing (only used to keep files properly nested)
          i, stack, select, out, seen, diags, phase
vars == <<file, sel, single, open, i, stack, select, out, seen, diags, phase>>

SelOf(s) == CASE s = "a" -> [t |-> "a", on |-> TRUE] [] s = "!a" -> [t |-> "a", on |-> FALSE]
              [] s = "b" -> [t |-> "b", on |-> TRUE] [] s = "!b" -> [t |-> "b", on |-> FALSE]
              [] s = "*" -> [t |-> "*", on |-> TRUE] [] s = "!*" -> [t |-> "*", on |-> FALSE]
              [] s = "**" -> [t |-> "**", on |-> TRUE] [] s = "!**" -> [t |-> "**", on |-> FALSE]
Show(x) == IF x.on THEN x.t ELSE "!" \o x.t

Init ==
  /\ file = <<>> /\ open = <<>>
  /\ \E n \in 1..MaxSel : \E q \in [1..n -> SelSet] : sel = [j \in 1..n |-> SelOf(q[j])]
  /\ single = (Len(sel) = 1)
  /\ \A j, k \in DOMAIN sel : j # k => sel[j].t # sel[k].t
  \* left out: a named tag along with "**" (which selects it anyway), and a
  \* double negated wildcard along with both a negated tag and a wildcard
  /\ ~ \E j, k \in DOMAIN sel : sel[j] = [t |-> "**", on |-> TRUE] /\ sel[k].on /\ sel[k].t \notin {"*", "**"}
  /\ ~ \E j, k, m \in DOMAIN sel : sel[j] = [t |-> "**", on |-> FALSE] /\ sel[k].t = "*" /\ ~sel[m].on /\ sel[m].t \notin {"*", "**"}
  /\ i = 1 /\ stack = <<>> /\ select = FALSE /\ out = <<>> /\ seen = {} /\ diags = <<>> /\ phase = "write"

Write ==
  /\ phase = "write" /\ Len(file) < MaxLines
  /\ \/ file' = Append(file, [k |-> "text", t |-> ""]) /\ UNCHANGED open
     \/ Blanks /\ file # <<>> /\ file' = Append(file, [k |-> "blank", t |-> ""]) /\ UNCHANGED open
     \/ \E t \in Tags : (Nested => \A j \in DOMAIN open : open[j] # t) /\ file' = Append(file, [k |-> "tag", t |-> t]) /\ open' = Append(open, t)
     \/ \E t \in Tags : /\ (Nested => open # <<>> /\ open[Len(open)] = t)
                        /\ file' = Append(file, [k |-> "end", t |-> t])
                        /\ open' = IF open = <<>> THEN open ELSE SubSeq(open, 1, Len(open) - 1)
  /\ UNCHANGED <<sel, single, i, stack, select, out, seen, diags, phase>>

\* --- the selection -------------------------------------------------------
Named == {sel[j].t : j \in DOMAIN sel}
On(t) == \E j \in DOMAIN sel : sel[j].t = t /\ sel[j].on
Names == Named \ {"*", "**"}
\* the first selector that is not the double wildcard, if any
Rest == SelectSeq(sel, LAMBDA x : x.t # "**")
Wild == CASE "*" \in Named -> IF On("*") THEN "on" ELSE "off"
          [] "**" \in Named /\ ~On("**") /\ Rest # <<>> /\ ~Rest[1].on -> "on"
          [] OTHER -> "none"
Base == CASE "**" \in Named -> On("**")
          [] "*" \in Named -> IF sel[1].t = "*" THEN ~On("*") ELSE FALSE
          [] OTHER -> \A t \in Names : ~On(t)

Start == /\ phase = "write" /\ file # <<>> /\ (Nested => open = <<>>)
         /\ phase' = "read" /\ select' = Base
         /\ UNCHANGED <<file, sel, single, open, i, stack, out, seen, diags>>
Top == stack[Len(stack)]
Active == IF stack = <<>> THEN "" ELSE Top.t
After(st) == IF st = <<>> THEN Base ELSE st[Len(st)].s
Without(st, t) == LET n == CHOOSE n \in DOMAIN st : st[n].t = t /\ \A m \in DOMAIN st : st[m].t = t => m <= n
                  IN SubSeq(st, 1, n - 1) \o SubSeq(st, n + 1, Len(st))
Read ==
  /\ phase = "read"
  /\ IF i > Len(file)
     THEN /\ phase' = "done" /\ UNCHANGED <<i, stack, select, out, seen, diags>>
     ELSE LET l == file[i] IN
       /\ phase' = phase /\ i' = i + 1
       /\ CASE l.k = "text" -> out' = (IF select THEN Append(out, i) ELSE out) /\ UNCHANGED <<stack, select, seen, diags>>
            [] l.k = "tag" ->
                 IF l.t \in Names
                 THEN select' = On(l.t) /\ stack' = Append(stack, [t |-> l.t, s |-> On(l.t), n |-> i])
                      /\ seen' = seen \cup {l.t} /\ UNCHANGED <<out, diags>>
                 ELSE IF Wild # "none"
                 THEN LET s == IF stack # <<>> /\ ~select THEN FALSE ELSE Wild = "on"
                      IN select' = s /\ stack' = Append(stack, [t |-> l.t, s |-> s, n |-> i]) /\ UNCHANGED <<out, seen, diags>>
                 ELSE UNCHANGED <<stack, select, out, seen, diags>>
            [] l.k = "blank" -> out' = (IF select THEN Append(out, i) ELSE out) /\ UNCHANGED <<stack, select, seen, diags>>
            [] l.k = "end" ->
                 IF l.t = Active
                 THEN LET st == SubSeq(stack, 1, Len(stack) - 1) IN stack' = st /\ select' = After(st) /\ UNCHANGED <<out, seen, diags>>
                 ELSE IF l.t \in Names
                 THEN /\ diags' = Append(diags, i)
                      /\ stack' = IF \E n \in DOMAIN stack : stack[n].t = l.t THEN Without(stack, l.t) ELSE stack
                      /\ UNCHANGED <<select, out, seen>>
                 ELSE UNCHANGED <<stack, select, out, seen, diags>>
  /\ UNCHANGED <<file, sel, single, open>>

Next == Write \/ Start \/ Read
----------------------------------------------------------------------------
\* open regions around line n of a properly nested file, outermost first
RECURSIVE Around(_, _, _)
Around(n, m, st) == IF m = n THEN st
                    ELSE Around(n, m + 1, CASE file[m].k \in {"text", "blank"} -> st [] file[m].k = "tag" -> Append(st, file[m].t) [] OTHER -> SubSeq(st, 1, Len(st) - 1))
RECURSIVE Judge(_, _, _)
Judge(ch, s, inside) ==
  IF ch = <<>> THEN s
  ELSE LET t == Head(ch) IN
       IF t \in Names THEN Judge(Tail(ch), On(t), TRUE)
       ELSE IF Wild # "none" THEN Judge(Tail(ch), IF inside /\ ~s THEN FALSE ELSE Wild = "on", TRUE)
       ELSE Judge(Tail(ch), s, inside)
Picked == SelectSeq([n \in DOMAIN file |-> n], LAMBDA n : file[n].k \in {"text", "blank"} /\ Judge(Around(n, 1, <<>>), Base, FALSE))
Agree == phase = "done" /\ Nested => out = Picked /\ diags = <<>>
Partition == phase = "done" /\ Nested /\ sel = <<[t |-> "**", on |-> TRUE]>> => Len(out) = Cardinality({n \in DOMAIN file : file[n].k \in {"text", "blank"}})
----------------------------------------------------------------------------
Word(n) == "t" \o ToString(n)
Directive(fo, l) == LET d == l.k \o "::" \o l.t \o "[]" IN
  CASE fo = "slash" -> "// " \o d [] fo = "hash" -> "# " \o d [] fo = "xml" -> "<!-- " \o d \o " -->" [] fo = "bare" -> d
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE Show(Head(q)) \o (IF Len(q) = 1 THEN "" ELSE sep \o Join(Tail(q), sep))
Missing == {t \in Names : On(t)} \ seen
\* regions named by the selection that are still open at the end
Unclosed == SelectSeq(stack, LAMBDA x : x.t \in Names /\ On(x.t))
Attr(sep) == IF single THEN "tag=" \o Show(sel[1]) ELSE "tags=" \o Join(sel, sep)
IsText(n) == file[n].k = "text"
Words == [n \in DOMAIN SelectSeq(out, IsText) |-> Word(SelectSeq(out, IsText)[n])]
\* paragraphs: (closed ones) x (words of the open one)
RECURSIVE Glue(_, _)
Glue(cur, w) == IF cur = "" THEN w ELSE cur \o " " \o w
RECURSIVE Paras(_, _, _)
Paras(n, done, cur) ==
  IF n > Len(out) THEN <<done, cur>>
  ELSE IF IsText(out[n]) THEN Paras(n + 1, done, Glue(cur, Word(out[n])))
  ELSE Paras(n + 1, IF cur = "" THEN done ELSE Append(done, cur), "")
\* the include stands between blank lines, then directly between two lines
Loose == LET p == Paras(1, <<>>, "") IN IF p[2] = "" THEN p[1] ELSE Append(p[1], p[2])
\* (a selection of nothing but blank lines selects nothing)
Tight == IF Words = <<>> THEN <<"mid end">> ELSE LET p == Paras(1, <<>>, "mid") IN Append(p[1], Glue(p[2], "end"))
Case(fo) ==
  LET ext == IF fo = "hash" THEN "rb" ELSE IF fo = "xml" THEN "xml" ELSE "adoc"
      at == IF fo = "bare" /\ ~single THEN "tags=\"" \o Join(sel, ",") \o "\"" ELSE Attr(";")
      body == [n \in DOMAIN file |-> CASE file[n].k = "text" -> Word(n) [] file[n].k = "blank" -> "" [] OTHER -> Directive(fo, file[n])]
      inc == "include::inc." \o ext \o "[" \o at \o "]"
  IN [ lines |-> IF fo = "slash" THEN <<"start", "", inc, "", "mid", inc, "end">> ELSE <<"start", "", "----", inc, "----", "", "end">>,
       files |-> << << "/base/inc." \o ext, body>> >>,
       also |-> <<"crlf">> \o (IF body[Len(body)] = "" THEN <<>> ELSE <<"incnoeol">>),
       expect |-> [ words |-> IF fo = "slash" THEN <<"start">> \o Words \o <<"mid">> \o Words \o <<"end">> ELSE <<"start">> \o Words \o <<"end">>,
                    status |-> "ok" ] @@
                  (IF fo = "slash" THEN [paras |-> <<"start">> \o Loose \o Tight] ELSE <<>>) @@
                  (IF Nested THEN [ndiags |-> IF Missing = {} THEN 0 ELSE IF fo = "slash" THEN 2 ELSE 1] ELSE
                   IF fo # "slash" /\ Names # {} /\ single /\ On(sel[1].t) THEN
                     [diags |-> [n \in DOMAIN diags |-> <<"inc." \o ext, diags[n]>>] \o [n \in DOMAIN Unclosed |-> <<"inc." \o ext, Unclosed[n].n>>]
                                \o (IF Missing = {} THEN <<>> ELSE << <<"main.adoc", 4>> >>)] ELSE <<>>) ]
Emit == phase = "done" => \A fo \in Forms : PrintT("@@" \o ToJson(Case(fo)))
=============================================================================
