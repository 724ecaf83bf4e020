------------------------------ MODULE Includes ------------------------------
(* Include directives.  A behaviour first writes the files (one line per     *)
(* step), then runs the preprocessor on them, one source line per step, with *)
(* an explicit stack of the files being read.                                *)
(*                                                                           *)
(* `Expand' gives the same meaning declaratively (recursive replacement of   *)
(* every accepted directive by the expansion of its file); TLC checks that   *)
(* the run agrees with it (Agree), that the stack never exceeds the depth in *)
(* force (DepthOK) and that no word of a file is lost or invented.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NFiles,   \* number of files, in writing order; the first is the main document
          MaxItems, \* lines per file
          Depths,   \* set of max-include-depth values tried (99: not set)
          Modes,    \* where the main document puts the lines
          SubMain,  \* TRUE: the main document lies in a directory below the base directory
          Rich,     \* TRUE: all directive forms
          Blocks    \* TRUE: block-level lines, acyclic includes, compared with the flattened document

VARIABLES files,  \* file -> sequence of items
          cur,    \* number of the file being written, or Len(Names)+1
          maxd,   \* max-include-depth
          stack,  \* files being read: [f, i, lim]
          out, diags, calls,
          phase
vars == <<files, cur, maxd, stack, out, diags, calls, phase>>

Names == SubSeq(<<"m", "a", "b", "c", "g">>, 1, NFiles)
Main == "m"
NameSet == {Names[i] : i \in DOMAIN Names}

\* directory (segments below the root) and base name of each file
Dir(f) == CASE f = "m" -> IF SubMain THEN <<"base", "sub">> ELSE <<"base">>
            [] f = "a" -> <<"base">> [] f = "b" -> <<"base", "d">> [] f = "c" -> <<"base", "d", "e">> [] f = "g" -> <<"other">>
BaseName(f) == CASE f = "m" -> "main.adoc" [] f = "a" -> "a.adoc" [] f = "b" -> "b.adoc" [] f = "c" -> "c-c.adoc" [] f = "g" -> "g.txt"
PathOf(f) == Append(Dir(f), BaseName(f))
RECURSIVE Show(_)
Show(p) == IF p = <<>> THEN "" ELSE "/" \o Head(p) \o Show(Tail(p))

RECURSIVE Norm(_, _)
Norm(acc, p) == IF p = <<>> THEN acc
                ELSE IF Head(p) = ".." THEN Norm(SubSeq(acc, 1, Len(acc) - 1), Tail(p))
                ELSE IF Head(p) = "." THEN Norm(acc, Tail(p))
                ELSE Norm(Append(acc, Head(p)), Tail(p))

Missing == [s |-> "no.adoc", abs |-> FALSE, p |-> <<"no.adoc">>]
T(s, p) == [s |-> s, abs |-> FALSE, p |-> p]
TA(s, p) == [s |-> s, abs |-> TRUE, p |-> p]
AllTargets == { T("a.adoc", <<"a.adoc">>), T("b.adoc", <<"b.adoc">>), T("d/b.adoc", <<"d", "b.adoc">>),
                T("../a.adoc", <<"..", "a.adoc">>), T("../d/b.adoc", <<"..", "d", "b.adoc">>), T("e/c-c.adoc", <<"e", "c-c.adoc">>),
                T("d/e/c-c.adoc", <<"d", "e", "c-c.adoc">>), T("c-c.adoc", <<"c-c.adoc">>), T("./a.adoc", <<".", "a.adoc">>),
                TA("/base/a.adoc", <<"base", "a.adoc">>), TA("/other/g.txt", <<"other", "g.txt">>), T("../../other/g.txt", <<"..", "..", "other", "g.txt">>),
                T("{dir}/b.adoc", <<"d", "b.adoc">>), T("main.adoc", <<"main.adoc">>), Missing }
\* every spelling of every existing file
Resolve(f, t) == Norm(<<>>, IF t.abs THEN t.p ELSE (IF f = Main THEN <<"base">> ELSE Dir(f)) \o t.p)
Found(f, t) == {g \in NameSet : PathOf(g) = Resolve(f, t)}

CoreTargets(f) ==
  {Missing} \cup UNION { {t \in AllTargets : Found(f, t) = {g} /\ ~t.abs /\ t.s \notin {"{dir}/b.adoc", "./a.adoc"}} : g \in NameSet \ {Main} }
Idx(f) == CHOOSE i \in DOMAIN Names : Names[i] = f
Targets(f) ==
  IF Blocks THEN {t \in AllTargets : \E g \in NameSet : Found(f, t) = {g} /\ Idx(g) > Idx(f)}
  ELSE IF Rich THEN AllTargets ELSE CoreTargets(f)

\* attribute lists on the directive: [s, depth (-1: none), optional]
Attrs == IF Blocks THEN {[s |-> "", d |-> -1, opt |-> FALSE]}
         ELSE IF Rich
         THEN { [s |-> "", d |-> -1, opt |-> FALSE], [s |-> "opts=optional", d |-> -1, opt |-> TRUE], [s |-> "depth=1", d |-> 1, opt |-> FALSE],
                [s |-> "depth=0", d |-> 0, opt |-> FALSE], [s |-> "opts=optional,depth=2", d |-> 2, opt |-> TRUE] }
         ELSE { [s |-> "", d |-> -1, opt |-> FALSE] }
CoreAttrs(t) == IF ~Rich /\ t = Missing THEN Attrs \cup {[s |-> "opts=optional", d |-> -1, opt |-> TRUE]} ELSE Attrs

BlockLines == { "", "== Sec", "=== Sub", "* item", "** deep", ". one", "----", "====", "****", ".Title", "[quote]", ":x: 1", ":x: 2", "{x} y",
                "|===", "|c |d", "+", "'''", "// c", "NOTE: n", "term:: d", "a _b", "c_ d", "ifdef::x[if {x}]", "ifndef::x[:x: 3]", "[[id]]", "  lit", "w +", "<1> co", "x <1>" }
Items(f) ==
  { [k |-> "inc", t |-> t, at |-> a] : t \in Targets(f), a \in UNION {CoreAttrs(x) : x \in Targets(f)} }
  \cup (IF Blocks THEN { [k |-> "line", s |-> s] : s \in BlockLines \cup (IF f = Main THEN {"////"} ELSE {}) } ELSE {})
  \cup { [k |-> "text"] }
  \cup (IF Rich THEN {[k |-> "esc"]} ELSE {})
ItemOK(f, it) == it.k = "inc" => it.at \in CoreAttrs(it.t)

Init ==
  /\ files = [f \in NameSet |-> <<>>] /\ cur = 1 /\ maxd \in Depths
  /\ stack = <<>> /\ out = <<>> /\ diags = <<>> /\ calls = <<>> /\ phase = "write"

AddItem ==
  /\ phase = "write" /\ cur <= Len(Names)
  /\ LET f == Names[cur] IN
     /\ Len(files[f]) < MaxItems
     /\ \E it \in Items(f) : ItemOK(f, it) /\ files' = [files EXCEPT ![f] = Append(@, it)]
  /\ UNCHANGED <<cur, maxd, stack, out, diags, calls, phase>>

\* only files mentioned by an earlier directive are worth writing
Mentioned(f) == f = Main \/ \E g \in NameSet : \E i \in DOMAIN files[g] : files[g][i].k = "inc" /\ Found(g, files[g][i].t) = {f}
Later(n) == {j \in n + 1..Len(Names) : Mentioned(Names[j])}
NextFile ==
  /\ phase = "write" /\ cur <= Len(Names)
  /\ (cur = 1 => files[Main] # <<>>)
  /\ IF Later(cur) = {}
     THEN /\ phase' = "run" /\ cur' = Len(Names) + 1
          /\ stack' = << [f |-> Main, i |-> 1, lim |-> IF maxd = 99 THEN 64 ELSE maxd] >>
     ELSE /\ cur' = CHOOSE j \in Later(cur) : \A k \in Later(cur) : j <= k
          /\ UNCHANGED <<phase, stack>>
  /\ UNCHANGED <<files, maxd, out, diags, calls>>

Word(f, i) == f \o ToString(i)
LineOf(f, i) ==
  LET it == files[f][i] IN
  CASE it.k = "text" -> Word(f, i)
    [] it.k = "esc" -> "\\include::a.adoc[]"
    [] it.k = "line" -> it.s
    [] it.k = "inc" -> "include::" \o it.t.s \o "[" \o it.at.s \o "]"
\* the directive as it shows in the text when it is left alone (attribute references in it are replaced)
Shown(it) == "include::" \o (IF it.t.s = "{dir}/b.adoc" THEN "d/b.adoc" ELSE it.t.s) \o "[" \o it.at.s \o "]"
Raw(it) == "include::" \o it.t.s \o "[" \o it.at.s \o "]"
\* a refused directive is ordinary text, so a verbatim block keeps the attribute reference in it
\* every output word carries its text in a verbatim block next to its text elsewhere
W(x) == <<x, x>>
Refused(it) == <<Shown(it), Raw(it)>>
Abs == IF maxd = 99 THEN 64 ELSE maxd
Min(a, b) == IF a < b THEN a ELSE b
\* the limit in force inside a file included at nesting n with attribute list at, from a file with limit lim
ChildLim(n, at, lim) == IF at.d = -1 THEN lim ELSE Min(n + at.d, Abs)

Ws(q) == [j \in DOMAIN q |-> W(q[j])]
OutOf(mo) == [j \in DOMAIN out |-> out[j][IF mo = "listing" THEN 2 ELSE 1]]
Unresolved(f, it) == <<"Unresolved", "directive", "in", BaseName(f), "-", Shown(it)>>

Nesting == Len(stack) - 1
Top == stack[Len(stack)]
Advance(st) == [st EXCEPT ![Len(st)].i = @ + 1]
Run ==
  /\ phase = "run"
  /\ IF stack = <<>> THEN phase' = "done" /\ UNCHANGED <<stack, out, diags, calls>>
     ELSE /\ phase' = phase
          /\ LET f == Top.f  i == Top.i IN
             IF i > Len(files[f]) THEN stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<out, diags, calls>>
             ELSE LET it == files[f][i] IN
               CASE it.k = "text" -> out' = Append(out, W(Word(f, i))) /\ stack' = Advance(stack) /\ UNCHANGED <<diags, calls>>
                 [] it.k = "esc" -> out' = Append(out, W("include::a.adoc[]")) /\ stack' = Advance(stack) /\ UNCHANGED <<diags, calls>>
                 [] it.k = "line" -> out' = Append(out, W(it.s)) /\ stack' = Advance(stack) /\ UNCHANGED <<diags, calls>>
                 [] it.k = "inc" /\ Nesting >= Top.lim ->
                      /\ out' = Append(out, Refused(it)) /\ diags' = Append(diags, <<f, i, Nesting>>)
                      /\ stack' = Advance(stack) /\ UNCHANGED calls
                 [] it.k = "inc" /\ Nesting < Top.lim ->
                      LET g == Found(f, it.t) IN
                      /\ calls' = Append(calls, Show(Resolve(f, it.t)))
                      /\ IF g = {}
                         THEN /\ stack' = Advance(stack)
                              /\ IF it.at.opt THEN UNCHANGED <<out, diags>>
                                 ELSE out' = out \o Ws(Unresolved(f, it)) /\ diags' = Append(diags, <<f, i, Nesting>>)
                         ELSE /\ stack' = Append(Advance(stack), [f |-> CHOOSE x \in g : TRUE, i |-> 1, lim |-> ChildLim(Nesting + 1, it.at, Top.lim)])
                              /\ UNCHANGED <<out, diags>>
  /\ UNCHANGED <<files, cur, maxd>>

Next == AddItem \/ NextFile \/ Run
----------------------------------------------------------------------------
RECURSIVE Expand(_, _, _, _)
Expand(f, i, n, lim) ==
  IF i > Len(files[f]) THEN [o |-> <<>>, d |-> <<>>, c |-> <<>>]
  ELSE LET it == files[f][i]
           rest == Expand(f, i + 1, n, lim)
           g == IF it.k = "inc" THEN Found(f, it.t) ELSE {}
           here == CASE it.k = "text" -> [o |-> <<W(Word(f, i))>>, d |-> <<>>, c |-> <<>>]
                     [] it.k = "esc" -> [o |-> <<W("include::a.adoc[]")>>, d |-> <<>>, c |-> <<>>]
                     [] it.k = "line" -> [o |-> <<W(it.s)>>, d |-> <<>>, c |-> <<>>]
                     [] it.k = "inc" /\ n >= lim -> [o |-> <<Refused(it)>>, d |-> << <<f, i, n>> >>, c |-> <<>>]
                     [] it.k = "inc" /\ n < lim /\ g = {} -> [o |-> IF it.at.opt THEN <<>> ELSE Ws(Unresolved(f, it)), d |-> IF it.at.opt THEN <<>> ELSE << <<f, i, n>> >>, c |-> <<Show(Resolve(f, it.t))>>]
                     [] it.k = "inc" /\ n < lim /\ g # {} ->
                          LET e == Expand(CHOOSE x \in g : TRUE, 1, n + 1, ChildLim(n + 1, it.at, lim))
                          IN [e EXCEPT !.c = <<Show(Resolve(f, it.t))>> \o @]
       IN [o |-> here.o \o rest.o, d |-> here.d \o rest.d, c |-> here.c \o rest.c]

Agree == phase = "done" => LET e == Expand(Main, 1, 0, Abs) IN e.o = out /\ e.d = diags /\ e.c = calls
DepthOK == Nesting <= Abs
\* every text line of the main document survives exactly as often as it is read
Cyclic == \E g \in NameSet : \E j \in DOMAIN files[g] : files[g][j].k = "inc" /\ Found(g, files[g][j].t) = {Main}
MainKept == phase = "done" /\ ~Cyclic =>
  \A i \in DOMAIN files[Main] : files[Main][i].k = "text" => Cardinality({j \in DOMAIN out : out[j] = W(Word(Main, i))}) = 1
Small == Len(out) <= 150
----------------------------------------------------------------------------
Pre(mo) == CASE mo = "listing" -> <<"----">>
         [] mo = "list" -> <<"* start">>
         [] mo = "dlist" -> <<"t:: start">>
         [] mo = "sidebar" -> <<"****", "start">>
         [] mo = "cell" -> <<"|===", "a|">>
         [] mo = "quote" -> <<"[quote]", "start">>
         [] mo = "flat" -> <<>>
         [] OTHER -> <<"start">>
Post(mo) == CASE mo = "listing" -> <<"----", "", "last">>
          [] mo = "sidebar" -> <<"****", "", "last">>
          [] mo = "cell" -> <<"|===", "", "last">>
          [] mo = "end" -> <<>>
          [] mo = "flat" -> <<>>
          [] OTHER -> <<"last">>
WPre(mo) == CASE mo \in {"listing", "cell", "flat"} -> <<>> [] mo = "dlist" -> <<"t", "start">> [] OTHER -> <<"start">>
WPost(mo) == IF mo \in {"end", "flat"} THEN <<>> ELSE <<"last">>
Loose(mo) == mo = "loose"
Src(mo, f) == LET n == Len(files[f]) IN
  IF Loose(mo) THEN [j \in 1..2 * n |-> IF j % 2 = 1 THEN LineOf(f, (j + 1) \div 2) ELSE ""]
  ELSE [j \in 1..n |-> LineOf(f, j)]
LooseSep(mo, s) == IF Loose(mo) THEN Append(s, "") ELSE s
MainOff(mo) == Len(LooseSep(mo, Pre(mo)))
LineNo(mo, f, i, n) == (IF n = 0 THEN MainOff(mo) ELSE 0) + (IF Loose(mo) THEN 2 * i - 1 ELSE i)
HasEsc == \E f \in NameSet : \E i \in DOMAIN files[f] : files[f][i].k = "esc"
Plain(mo) == diags = <<>> /\ ~HasEsc /\ ~Loose(mo)
Case(mo) ==
  [ lines |-> LooseSep(mo, Pre(mo)) \o Src(mo, Main) \o Post(mo),
    files |-> [j \in 1..Len(Names) - 1 |-> << Show(PathOf(Names[j + 1])), Src(mo, Names[j + 1]) >>]
              \o << << Show(PathOf(Main)), Src(mo, Main) >> >>,
    set |-> [ main |-> Show(PathOf(Main)),
              attrs |-> << <<"dir", "d", "ro">> >> \o IF maxd = 99 THEN <<>> ELSE << <<"max-include-depth", ToString(maxd), "ro">> >> ],
    also |-> (IF diags = <<>> THEN <<"strict">> ELSE <<>>) \o <<"crlf", "incnoeol", "html5s", "noeol">>,
    expect |-> (IF Plain(mo) THEN [samehtml |-> [lines |-> Pre(mo) \o OutOf(mo) \o Post(mo)]] ELSE <<>>) @@
               [ words |-> WPre(mo) \o OutOf(mo) \o WPost(mo),
                 status |-> "ok",
                 calls |-> calls,
                 diags |-> [j \in DOMAIN diags |-> << BaseName(diags[j][1]), LineNo(mo, diags[j][1], diags[j][2], diags[j][3]) >>] ] ]
CaseFlat(mo) ==
  [ lines |-> Src(mo, Main),
    files |-> [j \in 1..Len(Names) - 1 |-> << Show(PathOf(Names[j + 1])), Src(mo, Names[j + 1]) >>],
    set |-> [ attrs |-> << <<"dir", "d", "ro">> >> ],
    also |-> <<"crlf", "incnoeol", "html5s">>,
    expect |-> [ samehtml |-> [lines |-> OutOf(mo)] ] ]
Emit == phase = "done" /\ (\E i \in DOMAIN files[Main] : files[Main][i].k = "inc") => \A mo \in Modes : PrintT("@@" \o ToJson(IF Blocks THEN CaseFlat(mo) ELSE Case(mo)))
=============================================================================
