---------------------------- MODULE Conditionals ----------------------------
(* Conditional preprocessing: ifdef / ifndef / ifeval / endif.              *)
(*                                                                          *)
(* The machine reads one source line per step, exactly as a preprocessor    *)
(* does: it keeps a stack of open live conditionals and, while skipping,    *)
(* the number of conditionals opened inside the skipped region.             *)
(* `Denote' gives the same meaning declaratively (a line survives iff every *)
(* conditional enclosing it holds) and TLC checks that both agree in every  *)
(* reachable state (Agree), that skipping never leaks (Balanced), and that  *)
(* attribute changes in skipped regions have no effect (DeadInert).         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,   \* number of actions in a behaviour
          Mode,     \* where the document places the lines: "para" | "tight" | "listing" | "loose" | "include" | "header" | "cell"
          Rich      \* TRUE: the whole directive alphabet, FALSE: the core of it

VARIABLES h,      \* history of actions (the document being written)
          stack,  \* open live conditionals: sequence of [k, t]
          skip,   \* 0, or 1 + number of conditionals opened in the skipped region
          dead,   \* the conditionals opened in the skipped region (incl. the first)
          env,    \* attribute -> "" (unset) | value
          out,    \* words that survive
          diags,  \* action indexes at which a diagnostic is due
          skipAt  \* action index of the directive that started skipping
vars == <<h, stack, skip, dead, env, out, diags, skipAt>>

Attrs == {"aa", "b", "c-c"}
\* the attribute lists a directive may name: [src, any/all, names]
Targets ==
  IF Rich
  THEN { [s |-> "aa", op |-> "all", n |-> {"aa"}], [s |-> "b", op |-> "all", n |-> {"b"}],
         [s |-> "c-c", op |-> "all", n |-> {"c-c"}],
         [s |-> "aa,b", op |-> "any", n |-> {"aa", "b"}], [s |-> "b,aa", op |-> "any", n |-> {"aa", "b"}],
         [s |-> "aa+b", op |-> "all", n |-> {"aa", "b"}], [s |-> "b+aa", op |-> "all", n |-> {"aa", "b"}],
         [s |-> "aa,b,c-c", op |-> "any", n |-> {"aa", "b", "c-c"}], [s |-> "c-c+b+aa", op |-> "all", n |-> {"aa", "b", "c-c"}],
         [s |-> "nope", op |-> "all", n |-> {"nope"}], [s |-> "nope,b", op |-> "any", n |-> {"nope", "b"}] }
  ELSE { [s |-> "aa", op |-> "all", n |-> {"aa"}], [s |-> "b", op |-> "all", n |-> {"b"}] }

Evals ==
  IF Rich
  THEN { [s |-> "\"{aa}\" == \"1\"", v |-> "aa=1"], [s |-> "1 < 2", v |-> "T"], [s |-> "2 <= 1", v |-> "F"],
         [s |-> "{b} > 5", v |-> "b>5"], [s |-> "'x' != 'y'", v |-> "T"], [s |-> "'x' > 'y'", v |-> "F"],
         [s |-> "{aa} >= 1", v |-> "aa>=1"], [s |-> "1.5 < 2.5", v |-> "T"], [s |-> "10 > 9", v |-> "T"] }
  ELSE { [s |-> "1 < 2", v |-> "T"], [s |-> "2 <= 1", v |-> "F"] }

EvalHolds(v, e) ==
  CASE v = "T" -> TRUE
    [] v = "F" -> FALSE
    [] v = "aa=1" -> e["aa"] = "1"
    [] v = "aa>=1" -> e["aa"] \in {"1", "2", "7"}
    [] v = "b>5" -> e["b"] = "7"

Defined(a, e) == a \in Attrs /\ e[a] # ""
ListHolds(t, e) == IF t.op = "any" THEN \E a \in t.n : Defined(a, e) ELSE \A a \in t.n : Defined(a, e)
\* ifndef: with `,' not any is defined; with `+' not all are defined
Holds(act, e) ==
  CASE act.k = "ifdef" -> ListHolds(act.t, e)
    [] act.k = "ifndef" -> ~ListHolds(act.t, e)
    [] act.k = "ifeval" -> EvalHolds(act.t.v, e)

InitEnv == [a \in Attrs |-> IF a = "aa" THEN "1" ELSE ""]

Init ==
  /\ h = <<>> /\ stack = <<>> /\ skip = 0 /\ dead = <<>>
  /\ env = InitEnv /\ out = <<>> /\ diags = <<>> /\ skipAt = 0

Live == skip = 0
Word(i) == "w" \o ToString(i)

InHeader == Mode = "header"
Text ==
  ~InHeader /\
  LET i == Len(h) + 1 IN
  /\ h' = Append(h, [k |-> "text"])
  /\ out' = IF Live THEN Append(out, Word(i)) ELSE out
  /\ UNCHANGED <<stack, skip, dead, env, diags, skipAt>>

AttrOK == Mode \notin {"tight", "listing", "loose", "cell"}
SetAttr(a, v) ==
  /\ AttrOK
  /\ h' = Append(h, [k |-> "attr", a |-> a, v |-> v])
  /\ env' = IF Live THEN [env EXCEPT ![a] = v] ELSE env
  /\ UNCHANGED <<stack, skip, dead, out, diags, skipAt>>

\* `ifndef::a+b[]' with only some of them defined: see the job "mixed"
Mixed(act) == act.k = "ifndef" /\ act.t.op = "all"
                /\ (\E a \in act.t.n : Defined(a, env)) /\ (\E a \in act.t.n : ~Defined(a, env))
Open(act) ==
  /\ Mixed(act) => ~Live
  /\ h' = Append(h, act)
  /\ IF Live
     THEN IF Holds(act, env)
          THEN stack' = Append(stack, act) /\ UNCHANGED <<skip, dead, skipAt>>
          ELSE /\ skip' = 1 /\ dead' = <<act>> /\ skipAt' = Len(h) + 1
               /\ UNCHANGED stack
     ELSE skip' = skip + 1 /\ dead' = Append(dead, act) /\ UNCHANGED <<stack, skipAt>>
  /\ UNCHANGED <<env, out, diags>>

\* single line form: ifdef::x[word] opens nothing
Single(act) ==
  LET i == Len(h) + 1 IN
  /\ Mixed(act) => (~Live \/ Mode = "mixed")
  /\ ~InHeader
  /\ h' = Append(h, [act EXCEPT !.k = IF act.k = "ifdef" THEN "ifdef1" ELSE "ifndef1"])
  /\ out' = IF Live /\ Holds(act, env) THEN Append(out, Word(i)) ELSE out
  /\ UNCHANGED <<stack, skip, dead, env, diags, skipAt>>

\* single line form around an attribute entry: ifdef::x[:c-c: 9]
SingleAttr(act) ==
  /\ AttrOK /\ Rich /\ ~Mixed(act)
  /\ h' = Append(h, [act EXCEPT !.k = IF act.k = "ifdef" THEN "ifdefA" ELSE "ifndefA"])
  /\ env' = IF Live /\ Holds(act, env) THEN [env EXCEPT !["c-c"] = "9"] ELSE env
  /\ UNCHANGED <<stack, skip, dead, out, diags, skipAt>>

TopTarget(s) == IF s[Len(s)].k = "ifeval" THEN "" ELSE s[Len(s)].t.s

\* endif that closes the innermost open conditional, anonymous or named
Close(named) ==
  /\ \/ ~Live /\ (named => dead[Len(dead)].k # "ifeval")
     \/ Live /\ stack # <<>> /\ (named => stack[Len(stack)].k # "ifeval")
  /\ LET t == IF ~named THEN "" ELSE IF Live THEN TopTarget(stack) ELSE TopTarget(dead)
     IN h' = Append(h, [k |-> "endif", n |-> t])
  /\ IF Live
     THEN stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<skip, dead>>
     ELSE skip' = skip - 1 /\ dead' = SubSeq(dead, 1, Len(dead) - 1) /\ UNCHANGED stack
  /\ UNCHANGED <<env, out, diags, skipAt>>

\* endif that matches nothing: reported, and it closes nothing
BadEnd(t) ==
  LET i == Len(h) + 1 IN
  /\ Live /\ ~InHeader
  /\ stack # <<>> => t # TopTarget(stack) /\ t # ""
  /\ stack # <<>> /\ stack[Len(stack)].k = "ifeval" => t # ""
  /\ h' = Append(h, [k |-> "bad", n |-> t])
  /\ out' = Append(out, "endif::" \o t \o "[]")
  /\ diags' = Append(diags, i)
  /\ UNCHANGED <<stack, skip, dead, env, skipAt>>

Escaped ==
  LET i == Len(h) + 1 IN
  /\ Rich /\ Mode \notin {"listing", "loose", "header"}
  /\ h' = Append(h, [k |-> "esc"])
  /\ out' = IF Live THEN Append(out, "ifdef::nope[]") ELSE out
  /\ UNCHANGED <<stack, skip, dead, env, diags, skipAt>>

NextMixed == \E t \in {x \in Targets : x.s \in {"aa+b", "b+aa"}} : Len(h) < MaxLen /\ Single([k |-> "ifndef", t |-> t])

\* lines that merely mention a directive neither open nor close anything, live or skipped
Noises == { [s |-> "x endif::[]", w |-> <<"x", "endif::[]">>], [s |-> "x ifdef::nope[]", w |-> <<"x", "ifdef::nope[]">>],
            [s |-> "\\endif::[]", w |-> <<"endif::[]">>], [s |-> "endif::[] x", w |-> <<"endif::[]", "x">>] }
Noise(n) ==
  /\ Rich /\ ~InHeader /\ (Mode \in {"listing", "loose", "cell"} => n.s \in {"x endif::[]", "x ifdef::nope[]"})
  /\ h' = Append(h, [k |-> "noise", n |-> n])
  /\ out' = IF Live THEN out \o n.w ELSE out
  /\ UNCHANGED <<stack, skip, dead, env, diags, skipAt>>

Next ==
  /\ Len(h) < MaxLen
  /\ \/ Text
     \/ \E a \in (IF Rich THEN {"aa", "b"} ELSE {"b"}), v \in (IF Rich THEN {"", "2", "7"} ELSE {"", "7"}) : env[a] # v /\ SetAttr(a, v)
     \/ \E t \in Targets, k \in (IF Rich THEN {"ifdef", "ifndef"} ELSE {"ifdef"}) : Open([k |-> k, t |-> t]) \/ Single([k |-> k, t |-> t]) \/ SingleAttr([k |-> k, t |-> t])
     \/ \E e \in Evals : Open([k |-> "ifeval", t |-> e])
     \/ Close(TRUE) \/ Close(FALSE)
     \/ \E t \in (IF Rich THEN {"", "aa", "b"} ELSE {"", "aa"}) : BadEnd(t)
     \/ Escaped
     \/ \E n \in Noises : Noise(n)

----------------------------------------------------------------------------
(* Declarative meaning, computed from the history alone. *)
RECURSIVE Walk(_, _, _, _)
\* frames: sequence of booleans (does the conditional hold); e: environment
Walk(i, fr, e, o) ==
  IF i > Len(h) THEN [fr |-> fr, e |-> e, o |-> o]
  ELSE LET a == h[i]
           live == \A j \in DOMAIN fr : fr[j]
       IN CASE a.k = "text" -> Walk(i + 1, fr, e, IF live THEN Append(o, Word(i)) ELSE o)
            [] a.k = "esc" -> Walk(i + 1, fr, e, IF live THEN Append(o, "ifdef::nope[]") ELSE o)
            [] a.k = "noise" -> Walk(i + 1, fr, e, IF live THEN o \o a.n.w ELSE o)
            [] a.k = "bad" -> Walk(i + 1, fr, e, Append(o, "endif::" \o a.n \o "[]"))
            [] a.k = "attr" -> Walk(i + 1, fr, IF live THEN [e EXCEPT ![a.a] = a.v] ELSE e, o)
            [] a.k \in {"ifdef", "ifndef", "ifeval"} -> Walk(i + 1, Append(fr, live /\ Holds(a, e)), e, o)
            [] a.k = "ifdefA" -> Walk(i + 1, fr, IF live /\ ListHolds(a.t, e) THEN [e EXCEPT !["c-c"] = "9"] ELSE e, o)
            [] a.k = "ifndefA" -> Walk(i + 1, fr, IF live /\ ~ListHolds(a.t, e) THEN [e EXCEPT !["c-c"] = "9"] ELSE e, o)
            [] a.k = "ifdef1" -> Walk(i + 1, fr, e, IF live /\ ListHolds(a.t, e) THEN Append(o, Word(i)) ELSE o)
            [] a.k = "ifndef1" -> Walk(i + 1, fr, e, IF live /\ ~ListHolds(a.t, e) THEN Append(o, Word(i)) ELSE o)
            [] a.k = "endif" -> Walk(i + 1, SubSeq(fr, 1, Len(fr) - 1), e, o)
Denote == Walk(1, <<>>, InitEnv, <<>>)

Agree == LET d == Denote IN d.o = out /\ d.e = env /\ Len(d.fr) = Len(stack) + skip
Balanced == (skip > 0) = (dead # <<>>) /\ Len(dead) = skip
DeadInert == skip > 0 => \E j \in DOMAIN Denote.fr : ~Denote.fr[j]

----------------------------------------------------------------------------
(* Rendering: every behaviour is a document; every surviving word must be    *)
(* in the output, in order, and nothing else.                               *)
Line(i) ==
  LET a == h[i] IN
  CASE a.k = "text" -> Word(i)
    [] a.k = "esc" -> "\\ifdef::nope[]"
    [] a.k = "noise" -> a.n.s
    [] a.k = "attr" -> IF a.v = "" THEN ":!" \o a.a \o ":" ELSE ":" \o a.a \o ": " \o a.v
    [] a.k = "ifeval" -> "ifeval::[" \o a.t.s \o "]"
    [] a.k \in {"ifdef", "ifndef"} -> a.k \o "::" \o a.t.s \o "[]"
    [] a.k = "ifdefA" -> "ifdef::" \o a.t.s \o "[:c-c: 9]"
    [] a.k = "ifndefA" -> "ifndef::" \o a.t.s \o "[:c-c: 9]"
    [] a.k = "ifdef1" -> "ifdef::" \o a.t.s \o "[" \o Word(i) \o "]"
    [] a.k = "ifndef1" -> "ifndef::" \o a.t.s \o "[" \o Word(i) \o "]"
    [] a.k \in {"endif", "bad"} -> "endif::" \o a.n \o "[]"

Tight == Mode \in {"tight", "listing", "cell", "header"}
RECURSIVE Render(_)
Render(i) == IF i > Len(h) THEN <<>>
             ELSE (IF Tight THEN <<Line(i)>> ELSE <<Line(i), "">>) \o Render(i + 1)
\* 1-based line of action i within Render(1)
LineNo(i) == IF Tight THEN i ELSE 2 * i - 1

\* the same document with the directives resolved by hand: surviving lines, and the
\* blank lines between them that are not in a skipped region
RECURSIVE FlatW(_, _, _, _)
FlatW(i, fr, e, f) ==
  IF i > Len(h) THEN f
  ELSE LET a == h[i]
           live == \A j \in DOMAIN fr : fr[j]
           opens == a.k \in {"ifdef", "ifndef", "ifeval"}
           fr2 == IF opens THEN Append(fr, live /\ Holds(a, e)) ELSE IF a.k = "endif" THEN SubSeq(fr, 1, Len(fr) - 1) ELSE fr
           sets == live /\ ((a.k = "ifdefA" /\ ListHolds(a.t, e)) \/ (a.k = "ifndefA" /\ ~ListHolds(a.t, e)))
           e2 == IF a.k = "attr" /\ live THEN [e EXCEPT ![a.a] = a.v] ELSE IF sets THEN [e EXCEPT !["c-c"] = "9"] ELSE e
           keep == \/ live /\ a.k \in {"text", "noise", "esc", "bad", "attr"} 
           line == CASE keep -> <<Line(i)>>
                     [] sets -> <<":c-c: 9">>
                     [] live /\ ((a.k = "ifdef1" /\ ListHolds(a.t, e)) \/ (a.k = "ifndef1" /\ ~ListHolds(a.t, e))) -> <<Word(i)>>
                     [] OTHER -> <<>>
           live2 == \A j \in DOMAIN fr2 : fr2[j]
       IN FlatW(i + 1, fr2, e2, f \o line \o (IF ~Tight /\ live2 THEN <<"">> ELSE <<>>))
Flat == FlatW(1, <<>>, InitEnv, <<>>)

Pre == CASE Mode = "header" -> <<"= Title", ":aa: 1">>
         [] Mode = "loose" -> <<":aa: 1", "", "----", "start", "">>
         [] Mode = "listing" -> <<":aa: 1", "", "----">>
         [] Mode = "tight" -> <<":aa: 1", "", "start">>
         [] Mode = "cell" -> <<":aa: 1", "", "|===", "a|">>
         [] OTHER -> <<":aa: 1", "", "start", "">>
Post == CASE Mode = "header" -> <<"", "{aa} {b} {c-c}">>
          [] Mode = "loose" -> <<"----", "", "{aa} {b} {c-c}">>
          [] Mode = "listing" -> <<"----", "", "{aa} {b} {c-c}">>
          [] Mode = "tight" -> <<"end", "", "{aa} {b} {c-c}">>
          [] Mode = "cell" -> <<"|===", "", "{aa} {b} {c-c}">>
          [] OTHER -> <<"", "{aa} {b} {c-c}">>
Ref(a) == IF env[a] = "" THEN "{" \o a \o "}" ELSE env[a]
Probe == <<Ref("aa"), Ref("b"), Ref("c-c")>>
Words == CASE Mode \in {"listing", "header"} -> out \o Probe
           [] Mode = "tight" -> <<"start">> \o out \o <<"end">> \o Probe
           [] Mode = "cell" -> out \o Probe
           [] OTHER -> <<"start">> \o out \o Probe

\* whatever is still open at the end of the behaviour is closed
Closers == [i \in 1..(skip + Len(stack)) |-> "endif::[]"]
Body == Pre \o Render(1) \o Closers \o Post
\* a region still being skipped at the end of the document is reported where it began
Off == Len(Pre)
DiagLines == [i \in DOMAIN diags |-> Off + LineNo(diags[i])]
Closed == skip = 0
Case ==
  LET f == IF Mode = "include" THEN "inc.adoc" ELSE "main.adoc" IN
  [ lines |-> CASE Mode = "include" -> <<"include::inc.adoc[]">> [] OTHER -> Body,
    files |-> IF Mode = "include" THEN << <<"/base/inc.adoc", Body>> >> ELSE <<>>,
    also |-> <<"crlf", "html5s", "strict">>,
    expect |-> [ words |-> Words,
                 samehtml |-> [lines |-> Pre \o Flat \o Post],
                 status |-> "ok",
                 diags |-> [i \in DOMAIN diags |-> <<f, DiagLines[i]>>] ] ]
\* same document with the region left open: one more diagnostic, nothing after it survives
CaseOpen ==
  [ lines |-> Pre \o Render(1),
    also |-> <<"crlf">>,
    expect |-> [ words |-> (IF Mode \in {"para", "tight"} THEN <<"start">> ELSE <<>>) \o out,
                 diags |-> [i \in DOMAIN diags |-> <<"main.adoc", DiagLines[i]>>] \o << <<"main.adoc", Off + LineNo(skipAt)>> >> ] ]

\* closed document that ends with its last directive, also without a final line end
CaseEnd ==
  [ lines |-> Pre \o Render(1) \o Closers,
    also |-> <<"crlf", "noeol">>,
    expect |-> [ words |-> (IF Mode \in {"para", "tight"} THEN <<"start">> ELSE <<>>) \o out,
                 diags |-> [i \in DOMAIN diags |-> <<"main.adoc", DiagLines[i]>>] ] ]
Emit ==
  Len(h) = MaxLen =>
    /\ (
          PrintT("@@" \o ToJson(IF diags = <<>> THEN Case ELSE [Case EXCEPT !.also = <<"crlf", "html5s">>])))
    /\ (~Closed /\ Mode \in {"para", "tight"} => PrintT("@@" \o ToJson(CaseOpen)))
    /\ (Mode \in {"para", "tight"} => PrintT("@@" \o ToJson(CaseEnd)))
=============================================================================
