----------------------------- MODULE Attributes -----------------------------
(* Document attributes: layers and the value seen at every reference.        *)
(*                                                                           *)
(* The machine writes a document one piece at a time.  Its state is the set  *)
(* of layers an attribute has (job, header, body) and the pieces written so  *)
(* far.  `Look' is the operational lookup through the layers; `Denote' gives *)
(* the value from the history of assignments alone; TLC checks that both     *)
(* agree in every state (Agree), that a read-only job value never moves      *)
(* (JobWins), and that a forbidden assignment changes nothing (Inert).       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,    \* attribute classes: "plain" | "default" | "jobonly" | "headeronly" | "doctype"
          MaxHdr,   \* header entries
          MaxBody,  \* body actions
          Forms,    \* how entries are spelled
          Carriers, \* where body entries stand
          Probes,   \* where references stand
          Seps      \* "loose" | "tight": is an entry separated from what follows

VARIABLES kind, job, titled, sep,   \* configuration
          phase,                    \* "hdr" | "body"
          hist,                     \* assignments so far: [n, l, v, ok]
          hdr, body,                \* layers: name -> value ("-" : not assigned)
          lines, words, diags, nh, nb, last
vars == <<kind, job, titled, sep, phase, hist, hdr, body, lines, words, diags, nh, nb, last>>

NoV == "-"      \* nothing assigned in the layer
Off == "off"    \* explicitly unset
On  == "on"     \* set without a value
Name == CASE kind = "plain" -> "u-x" [] kind = "default" -> "table-caption" [] kind = "jobonly" -> "max-include-depth" [] kind = "headeronly" -> "keywords" [] kind = "doctype" -> "doctype"
Default == CASE kind = "default" -> "Table" [] kind = "doctype" -> "article" [] OTHER -> NoV
Val(i) == IF kind = "doctype" THEN (IF i = 2 THEN "article" ELSE "book") ELSE IF kind = "jobonly" THEN (CASE i = 1 -> "11" [] i = 2 -> "12" [] i = 3 -> "13") ELSE (CASE i = 1 -> "one" [] i = 2 -> "two" [] i = 3 -> "job")
\* job settings: <<how, value>>
Jobs == { <<"none", NoV>>, <<"ro", "3">>, <<"mod", "3">>, <<"ro", Off>>, <<"mod", Off>>, <<"ro", On>>, <<"mod", On>> }
JobVal == IF job[2] = "3" THEN Val(3) ELSE job[2]

\* ---- lookup through the layers, the operational meaning --------------------
Look(n, h, b) ==
  IF n = "w" THEN (IF b.w # NoV THEN b.w ELSE h.w)
  ELSE IF job[1] = "ro" THEN JobVal
  ELSE IF b.u # NoV THEN b.u
  ELSE IF h.u # NoV THEN h.u
  ELSE IF job[1] = "mod" THEN JobVal
  ELSE Default

\* ---- the value from the history alone ---------------------------------------
LastOf(n, l, hs) == LET s == {i \in 1..Len(hs) : hs[i].n = n /\ hs[i].l = l /\ hs[i].ok} IN
                    IF s = {} THEN NoV ELSE hs[CHOOSE i \in s : \A j \in s : j <= i].v
Denote(n, hs) ==
  LET layers == (IF n = "u" /\ job[1] = "ro" THEN <<JobVal>> ELSE <<>>)
                \o << LastOf(n, "body", hs), LastOf(n, "hdr", hs) >>
                \o (IF n = "u" /\ job[1] = "mod" THEN <<JobVal>> ELSE <<>>)
                \o << IF n = "u" THEN Default ELSE NoV >>
      s == {i \in 1..Len(layers) : layers[i] # NoV}
  IN IF s = {} THEN NoV ELSE layers[CHOOSE i \in s : \A j \in s : i <= j]

Cur(n) == Look(n, hdr, body)
IsSet(v) == v \notin {NoV, Off}
SrcName(n) == IF n = "w" THEN "w" ELSE Name
Shown(n, v) == CASE v \in {NoV, Off} -> "{" \o SrcName(n) \o "}" [] v = On -> "" [] OTHER -> v
Ref(n) == "{" \o SrcName(n) \o "}"

\* ---- spelling of entries: [src: lines, n, v] ----------------------------------
Upper == CASE kind = "plain" -> "U-X" [] kind = "default" -> "Table-Caption" [] kind = "jobonly" -> "MAX-INCLUDE-DEPTH" [] kind = "headeronly" -> "Keywords" [] kind = "doctype" -> "DocType"
Entry(f) ==
  LET N == Name IN
  CASE f = "set1" -> [src |-> <<":" \o N \o ": " \o Val(1)>>, n |-> "u", v |-> Val(1)]
    [] f = "set2" -> [src |-> <<":" \o N \o ":   " \o Val(2) \o "  ">>, n |-> "u", v |-> Val(2)]
    [] f = "on" -> [src |-> <<":" \o N \o ":">>, n |-> "u", v |-> On]
    [] f = "off" -> [src |-> <<":" \o N \o "!:">>, n |-> "u", v |-> Off]
    [] f = "off2" -> [src |-> <<":!" \o N \o ":">>, n |-> "u", v |-> Off]
    [] f = "upper" -> [src |-> <<":" \o Upper \o ": " \o Val(2)>>, n |-> "u", v |-> Val(2)]
    [] f = "cont" -> [src |-> <<":" \o N \o ": p \\", "q">>, n |-> "u", v |-> "p q"]
    [] f = "cont3" -> [src |-> <<":" \o N \o ": p \\", "q \\", "r">>, n |-> "u", v |-> "p q r"]
    [] f = "wset" -> [src |-> <<":w: a" \o Ref("u") \o "z">>, n |-> "w", v |-> "a" \o Shown("u", Cur("u")) \o "z"]
    [] f = "wcont" -> [src |-> <<":w: a \\", Ref("u") \o "z">>, n |-> "w", v |-> "a " \o Shown("u", Cur("u")) \o "z"]
    [] f = "wset2" -> [src |-> <<":w: k">>, n |-> "w", v |-> "k"]
    [] f = "woff" -> [src |-> <<":w!:">>, n |-> "w", v |-> Off]
    [] f = "uofw" -> [src |-> <<":" \o N \o ": (" \o Ref("w") \o ")">>, n |-> "u", v |-> "(" \o Shown("w", Cur("w")) \o ")"]
\* what a missing reference in a value becomes is left open
EntryOK(f) == /\ (f \in {"wset", "wcont"} => IsSet(Cur("u")))
              /\ (f = "uofw" => IsSet(Cur("w")))
Allowed(e, l) == \/ e.n = "w"
                 \/ /\ kind # "jobonly"
                    /\ (kind \in {"headeronly", "doctype"} => l = "hdr")
                    /\ (kind = "doctype" => e.v \in {"book", "article"})

W(n) == LET k == CASE n = 0 -> "0" [] n = 1 -> "1" [] n = 2 -> "2" [] n = 3 -> "3" [] n = 4 -> "4" [] n = 5 -> "5" [] n = 6 -> "6" [] n = 7 -> "7" [] n = 8 -> "8" [] OTHER -> "9" IN "w" \o k

Init ==
  /\ kind \in Kinds /\ job \in Jobs /\ titled \in BOOLEAN /\ sep \in Seps
  /\ (kind \in {"jobonly", "doctype"} => job[2] \in {NoV, "3"})
  /\ phase = "hdr" /\ hist = <<>>
  /\ hdr = [u |-> NoV, w |-> NoV] /\ body = [u |-> NoV, w |-> NoV]
  /\ lines = (IF titled THEN <<"= Title">> ELSE <<>>)
  /\ words = <<>> /\ diags = <<>> /\ nh = 0 /\ nb = 0 /\ last = "none"

Cfg == UNCHANGED <<kind, job, titled, sep>>

HdrEntry(f) ==
  LET e == Entry(f) ok == Allowed(e, "hdr") IN
  /\ phase = "hdr" /\ nh < MaxHdr /\ EntryOK(f)
  /\ lines' = lines \o e.src
  /\ hist' = Append(hist, [n |-> e.n, l |-> "hdr", v |-> e.v, ok |-> ok])
  /\ hdr' = (IF ok THEN [hdr EXCEPT ![e.n] = e.v] ELSE hdr)
  /\ diags' = (IF ok THEN diags ELSE Append(diags, Len(lines) + 1))
  /\ nh' = nh + 1 /\ last' = "hentry"
  /\ UNCHANGED <<phase, body, words, nb>> /\ Cfg

StartBody ==
  /\ phase = "hdr" /\ phase' = "body"
  /\ lines' = lines \o <<"", "start", "">> /\ words' = words \o <<"start">>
  /\ last' = "none"
  /\ UNCHANGED <<hist, hdr, body, diags, nh, nb>> /\ Cfg

Gap == IF sep = "loose" THEN <<"">> ELSE <<>>
\* an entry that takes effect in the document
Live(f, c) ==
  LET e == Entry(f) ok == Allowed(e, "body")
      pre == CASE c = "plain" -> <<>> [] c = "example" -> <<"====">> [] c = "ifndef" -> <<"ifndef::nope[]">>
      post == CASE c = "plain" -> Gap [] c = "example" -> <<"in" , "====", "">> [] c = "ifndef" -> <<"endif::[]">> \o Gap
      ws == IF c = "example" THEN <<"in">> ELSE <<>>
  IN
  /\ EntryOK(f)
  \* entries inside the block: separated, so that the text is a paragraph
  /\ lines' = lines \o pre \o e.src \o (IF c = "example" THEN Gap ELSE <<>>) \o post
  /\ words' = words \o ws
  /\ hist' = Append(hist, [n |-> e.n, l |-> "body", v |-> e.v, ok |-> ok])
  /\ body' = (IF ok THEN [body EXCEPT ![e.n] = e.v] ELSE body)
  /\ diags' = (IF ok THEN diags ELSE Append(diags, Len(lines) + Len(pre) + 1))
  /\ last' = (IF c = "example" THEN "block" ELSE "entry")

\* an entry-like line that is not an assignment
Dead(f, c) ==
  LET e == Entry(f)
      pre == CASE c = "listing" -> <<"----">> [] c = "comment" -> <<"////">> [] c = "ifdef" -> <<"ifdef::nope[]">> [] c = "literal" -> <<"....">> [] c = "text" -> <<"lead">>
      post == CASE c = "listing" -> <<"----", "">> [] c = "comment" -> <<"////", "">> [] c = "ifdef" -> <<"endif::[]">> \o Gap [] c = "literal" -> <<"....", "">> [] c = "text" -> <<"">>
  IN
  /\ Len(e.src) = 1 /\ f \in {"set1", "off", "wset2"}
  /\ lines' = lines \o pre \o e.src \o post
  /\ words' = words \o (CASE c \in {"listing", "literal"} -> IF f = "set1" THEN <<":" \o Name \o ":", Val(1)>> ELSE IF f = "wset2" THEN <<":w:", "k">> ELSE <<":" \o Name \o "!:">>
                          [] c = "text" -> IF f = "set1" THEN <<"lead", ":" \o Name \o ":", Val(1)>> ELSE IF f = "wset2" THEN <<"lead", ":w:", "k">> ELSE <<"lead", ":" \o Name \o "!:">>
                          [] OTHER -> <<>>)
  /\ last' = (IF c = "ifdef" THEN "entry" ELSE "block")
  /\ UNCHANGED <<hist, body, diags>>

BodyEntry(f, c) ==
  /\ phase = "body" /\ nb < MaxBody
  /\ IF c \in {"plain", "example", "ifndef"} THEN Live(f, c) ELSE (last # "entry" \/ sep = "loose" \/ c # "text") /\ Dead(f, c)
  /\ nb' = nb + 1
  /\ UNCHANGED <<phase, hdr, nh>> /\ Cfg

\* words of a shown value after a label: the value may hold blanks
VW(v) == CASE v = "p q" -> <<"p", "q">> [] v = "p q r" -> <<"p", "q", "r">>
           [] v = "ap qz" -> <<"ap", "qz">> [] v = "ap q rz" -> <<"ap", "q", "rz">>
           [] v = "(ap qz)" -> <<"(ap", "qz)">> [] v = "(ap q rz)" -> <<"(ap", "q", "rz)">>
           [] v = "a onez" -> <<"a", "onez">> [] v = "a twoz" -> <<"a", "twoz">> [] v = "a jobz" -> <<"a", "jobz">>
           [] v = "a Tablez" -> <<"a", "Tablez">> [] v = "a bookz" -> <<"a", "bookz">> [] v = "a articlez" -> <<"a", "articlez">>
           [] v = "a z" -> <<"a", "z">> [] v = "a p qz" -> <<"a", "p", "qz">>
           [] OTHER -> <<v>>
Wd(n, a) == LET w == VW(Shown(n, Cur(n))) k == Len(w) IN
            [i \in 1..k |-> (IF i = 1 THEN a ELSE "") \o w[i] \o (IF i = k THEN "." ELSE "")]
\* nesting entries in one another's values can go on for ever
Plain(n) == Cur(n) \in {NoV, Off, On, Val(1), Val(2), Val(3), "a onez", "a twoz", "a jobz", "a Tablez", "a bookz", "a articlez", "a z", "a p qz", "Table", "article", "p q", "p q r", "k", "az", "aonez", "atwoz", "ajobz", "aTablez", "abookz", "aarticlez", "ap qz", "ap q rz",
                        "(k)", "(az)", "()", "(aonez)", "(atwoz)", "(ajobz)", "(aTablez)", "(abookz)", "(aarticlez)", "(ap qz)", "(ap q rz)"}

Probe(n, p) ==
  LET a == W(nb) \o ":"
      t == a \o Ref(n) \o "."
      lit == <<a \o Ref(n) \o ".">>
      src == CASE p = "para" -> <<t, "">>
               [] p = "para2" -> <<"x", t, "">>
               [] p = "item" -> <<"* " \o t, "">>
               [] p = "section" -> <<"== " \o t, "">>
               [] p = "title" -> <<"." \o t, "****", "e", "****", "">>
               [] p = "listing" -> <<"[subs=attributes]", "----", t, "----", "">>
               [] p = "raw" -> <<"----", t, "----", "">>
               [] p = "cell" -> <<"|===", "|" \o t, "|===", "">>
               [] p = "acell" -> <<"|===", "a|" \o t, "|===", "">>
               [] p = "escaped" -> <<a \o "\\" \o Ref(n) \o ".", "">>
               [] p = "upper" -> <<IF n = "u" THEN a \o "{" \o Upper \o "}." ELSE a \o "{W}.", "">>
               [] p = "ifdef" -> <<"ifdef::" \o SrcName(n) \o "[]", a, "endif::[]", "">>
               [] p = "ifndef" -> <<"ifndef::" \o SrcName(n) \o "[" \o a \o "]", "">>
               [] p = "bold" -> <<"*" \o a \o Ref(n) \o "x*.", "">>
               [] p = "dlist" -> <<t \o ":: d", "">>
               [] p = "verse" -> <<"[verse]", t, "">>
               [] p = "quote" -> <<"> " \o t, "">>
               [] p = "twice" -> <<a \o Ref(n) \o "-" \o Ref(n) \o ".", "">>
               [] p = "cellset" -> <<"[cols=\"1,1\"]", "|===", "a|", ":" \o Name \o ": in", "", a \o Ref("u") \o ".", "a|" \o t, "|===", "", t, "">>
               [] p = "capcell" -> <<"|===", "a|", "x", "", "." \o a, "!===", "!y", "!===", "|===", "">>
      v == Cur(n)
      \* the caption of a table within an AsciiDoc cell (cells count their own tables)
      ws == CASE p = "capcell" -> <<"x">> \o (IF v = Off THEN <<a>> ELSE VW(Shown("u", v)) \o <<"1.", a>>) \o <<"y">>
              [] p \in {"para", "item", "section", "listing", "cell", "acell", "verse", "quote"} -> Wd(n, a)
              [] p = "para2" -> <<"x">> \o Wd(n, a)
              [] p = "title" -> Wd(n, a) \o <<"e">>
              [] p \in {"raw", "escaped"} -> lit
              [] p = "upper" -> IF v \in {NoV, Off} THEN <<IF n = "u" THEN a \o "{" \o Upper \o "}." ELSE a \o "{W}.">> ELSE Wd(n, a)
              [] p = "ifdef" -> IF IsSet(v) THEN <<a>> ELSE <<>>
              [] p = "ifndef" -> IF IsSet(v) THEN <<>> ELSE <<a>>
              [] p = "bold" -> <<a \o Shown(n, v) \o "x.">>
              [] p = "dlist" -> Wd(n, a) \o <<"d">>
              [] p = "twice" -> <<a \o Shown(n, v) \o "-" \o Shown(n, v) \o ".">>
              [] p = "cellset" -> (IF job[1] = "ro" THEN Wd("u", a) ELSE <<a \o "in.">>) \o Wd(n, a) \o Wd(n, a)
  IN
  /\ phase = "body" /\ nb < MaxBody
  /\ Plain(n) /\ (p \in {"bold", "twice"} => Len(VW(v)) = 1)
  \* an AsciiDoc table cell is an article of its own
  /\ (p = "acell" => kind # "doctype")
  /\ (p = "cellset" => n = "u" /\ kind \in {"plain", "default"})
  /\ (p = "capcell" => n = "u" /\ kind = "default" /\ v \notin {NoV, On})
  /\ lines' = lines \o src /\ words' = words \o ws 
  /\ nb' = nb + 1 /\ last' = "block"
  /\ UNCHANGED <<phase, hist, hdr, body, diags, nh>> /\ Cfg

Next ==
  \/ \E f \in Forms : HdrEntry(f)
  \/ StartBody
  \/ \E f \in Forms, c \in Carriers : BodyEntry(f, c)
  \/ \E n \in {"u", "w"}, p \in Probes : Probe(n, p)

\* ---- properties ---------------------------------------------------------------
Agree == \A n \in {"u", "w"} : Denote(n, hist) = Cur(n)
JobWins == job[1] = "ro" => Cur("u") = JobVal
Inert == (kind = "jobonly" => Cur("u") = (IF job[1] = "none" THEN Default ELSE JobVal))
         /\ (kind \in {"headeronly", "doctype"} => body.u = NoV)

Case ==
  LET tail == <<"", "zz:" \o Ref("u") \o ".", "", "yy:" \o Ref("w") \o ".", "">>
      jv == CASE job[2] = Off -> FALSE [] OTHER -> TRUE IN
  [ lines |-> lines \o tail,
    set |-> IF job[1] = "none" THEN [safe |-> "safe"]
            ELSE [safe |-> "safe", attrs |-> << IF job[2] = "3" THEN <<Name, Val(3), job[1]>> ELSE <<Name, jv, job[1]>> >>],
    also |-> <<"crlf">>,
    expect |-> [ words |-> words \o Wd("u", "zz:") \o Wd("w", "yy:"), diags |-> [i \in DOMAIN diags |-> <<"main.adoc", diags[i]>>] ] ]
Emit == phase = "body" /\ nb > 0 /\ Plain("u") /\ Plain("w") => PrintT("@@" \o ToJson(Case))
=============================================================================
