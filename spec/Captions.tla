------------------------------ MODULE Captions ------------------------------
(* Captions: one counter for each kind of block.                              *)
(*                                                                            *)
(* The machine writes blocks, containers and attribute entries; a titled      *)
(* block of a captioned kind takes the next number of its kind, unless it     *)
(* brings a caption of its own or captions of the kind are off.  TLC checks   *)
(* that the numbers of a kind are 1, 2, 3, ... in document order              *)
(* (Consecutive), and that kinds do not disturb each other (Apart).           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS MaxLen, Kinds, Containers, Titles, Captions, Entries, Heads, MaxDepth

VARIABLES head, n, open, lines, num, label, shown, taken, tight, adms
vars == <<head, n, open, lines, num, label, shown, taken, tight, adms>>
\* open: containers, outermost first; taken: <<kind, number>> in document order; tight: a list item takes what follows

Groups == {"figure", "table", "example", "listing"}
GroupOf(k) == CASE k = "image" -> "figure" [] k \in {"table", "csv"} -> "table" [] k \in {"example", "exstyle"} -> "example"
                [] k \in {"listing", "source", "fence", "lststyle", "srcstyle"} -> "listing" [] OTHER -> "none"
W(i) == "w" \o ToString(i)
T(i) == "t" \o ToString(i)
RECURSIVE Rep(_, _)
Rep(s, k) == IF k = 0 THEN "" ELSE s \o Rep(s, k - 1)
Depth == Len(open)
InCell == \E i \in DOMAIN open : open[i].k = "cell"
TableDelim == IF InCell THEN "!===" ELSE "|==="
TableSep == IF InCell THEN "!" ELSE "|"

Body(k) == CASE k = "image" -> <<"image::" \o W(n) \o ".png[]">> [] k = "table" -> <<TableDelim, TableSep \o W(n), TableDelim>> [] k = "csv" -> <<",===", W(n) \o ",x", ",===">>
             [] k = "example" -> <<"====", W(n), "====">> [] k = "exstyle" -> <<W(n)>> [] k = "listing" -> <<"----", W(n), "----">>
             [] k = "source" -> <<"----", W(n), "----">> [] k = "fence" -> <<"```ruby", W(n), "```">> [] k \in {"lststyle", "srcstyle"} -> <<W(n)>>
             [] k = "literal" -> <<"....", W(n), "....">> [] k = "sidebar" -> <<"****", W(n), "****">> [] k = "quote" -> <<"____", W(n), "____">>
             [] k = "verse" -> <<W(n)>> [] k = "para" -> <<W(n)>> [] k = "list" -> <<"* " \o W(n)>> [] k = "video" -> <<"video::" \o W(n) \o ".mp4[]">> [] k = "audio" -> <<"audio::" \o W(n) \o ".mp3[]">>
             [] k = "adm" -> <<"====", W(n), "====">> [] k = "admp" -> <<"NOTE: " \o W(n)>>
StyleOf(k) == CASE k = "exstyle" -> "example" [] k = "lststyle" -> "listing" [] k \in {"source", "srcstyle"} -> "source" [] k = "verse" -> "verse" [] k = "adm" -> "NOTE" [] OTHER -> ""
Container(k) == CASE k = "example" -> Rep("=", 4 + Depth + 1) [] k = "sidebar" -> "****" [] k = "quote" -> "____" [] k = "open" -> "--" [] OTHER -> ""

Join(a, b) == IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o "," \o b
\* lines of a block with title t and caption c
Meta(style, t, c) ==
  LET cap == CASE c = "none" -> "" [] c = "custom" -> "caption=\"Cap A: \"" [] c = "empty" -> "caption="
      ttl == IF t = "attr" THEN "title=" \o T(n) ELSE ""
      all == Join(Join(style, ttl), cap) IN
  (IF t = "dot" THEN <<"." \o T(n)>> ELSE <<>>) \o (IF all = "" THEN <<>> ELSE << "[" \o all \o "]" >>)
\* what is seen of the title
Counted(g, t, c) == g \in Groups /\ t # "none" /\ c = "none" /\ label[g] # ""
Seen(g, t, c) == IF t = "none" THEN <<>>
                 ELSE IF g = "none" THEN <<T(n)>>
                 ELSE IF c = "custom" THEN <<"Cap A: " \o T(n)>>
                 ELSE IF Counted(g, t, c) THEN << label[g] \o " " \o ToString(num[g] + 1) \o ". " \o T(n) >>
                 ELSE <<T(n)>>
Take(g, t, c) == IF Counted(g, t, c) THEN num' = [num EXCEPT ![g] = @ + 1] /\ taken' = Append(taken, <<g, num[g] + 1>>) ELSE UNCHANGED <<num, taken>>

\* in a list item blocks are attached; elsewhere they are set apart
Glue == IF Depth > 0 /\ open[Depth].k = "item" THEN <<"+">> ELSE IF lines = <<>> \/ tight THEN <<>> ELSE <<"">>

Init == /\ head \in Heads /\ n = 0 /\ open = <<>> /\ lines = <<>> /\ shown = <<>> /\ taken = <<>> /\ tight = FALSE /\ adms = FALSE
        /\ num = [g \in Groups |-> 0]
        /\ label = [g \in Groups |-> CASE g = "figure" -> (IF head = "nofig" THEN "" ELSE "Figure") [] g = "table" -> (IF head = "tabelle" THEN "Tabelle" ELSE "Table")
                                       [] g = "example" -> "Example" [] g = "listing" -> IF head = "listing" THEN "Listing" ELSE ""] @@ [adm |-> "Note"]

Block(k, t, c) ==
  LET g == GroupOf(k) IN
  /\ (c # "none" => g # "none" /\ t # "none")
  /\ (k = "csv" => ~InCell)
  /\ (k \in {"sidebar", "quote"} => \A i \in DOMAIN open : open[i].k # k)
  /\ (k = "list" => ~(Depth > 0 /\ open[Depth].k = "item"))
  /\ lines' = lines \o Glue \o Meta(StyleOf(k), t, c) \o Body(k)
  /\ shown' = shown \o (IF k \in {"adm", "admp"} THEN <<label.adm>> \o (IF t = "none" THEN <<>> ELSE <<T(n)>>) ELSE Seen(g, t, c))
  /\ Take(g, t, c) /\ tight' = FALSE /\ UNCHANGED <<open, label>>
  /\ adms' = (adms \/ k \in {"adm", "admp"})

Open(k, t, c) ==
  LET g == IF k = "cell" THEN "table" ELSE GroupOf(k) IN
  /\ k # "section" /\ Depth < MaxDepth
  /\ (c # "none" => g # "none" /\ t # "none")
  /\ (k = "cell" => ~InCell)
  /\ (k = "item" => ~InCell /\ (\A i \in DOMAIN open : open[i].k # "item") /\ t = "none")
  \* only examples nest in themselves
  /\ (k \in {"open", "sidebar", "quote"} => \A i \in DOMAIN open : open[i].k # k)
  /\ lines' = lines \o Glue \o Meta("", t, c) \o (CASE k = "cell" -> <<"|===", "a|">> [] k = "item" -> <<"* " \o W(n)>> [] OTHER -> <<Container(k)>>)
  /\ open' = Append(open, [k |-> k, d |-> Container(k)])
  /\ shown' = shown \o Seen(g, t, c) /\ Take(g, t, c) /\ tight' = TRUE /\ UNCHANGED <<label, adms>>

Close ==
  /\ Depth > 0
  /\ lines' = lines \o (CASE open[Depth].k = "cell" -> <<"|===">> [] open[Depth].k = "item" -> <<"", "//-">> [] OTHER -> <<open[Depth].d>>)
  /\ open' = SubSeq(open, 1, Depth - 1) /\ tight' = FALSE /\ UNCHANGED <<num, label, shown, taken, adms>>

Section ==
  /\ Depth = 0 /\ lines' = lines \o Glue \o <<"== s" \o ToString(n)>> /\ tight' = FALSE /\ UNCHANGED <<open, num, label, shown, taken, adms>>

Attr(g) == IF g = "adm" THEN "note-caption" ELSE g \o "-caption"
Entry(g, v) ==
  /\ ~InCell /\ (Depth > 0 => open[Depth].k # "item")
  /\ lines' = lines \o Glue \o << IF v = "" THEN ":" \o Attr(g) \o "!:" ELSE ":" \o Attr(g) \o ": " \o v >>
  /\ label' = [label EXCEPT ![g] = v] /\ tight' = FALSE /\ UNCHANGED <<open, num, shown, taken, adms>>

Do(ks, cs, ts, caps, es) ==
  \/ \E k \in ks, t \in ts, c \in caps : Block(k, t, c)
  \/ \E k \in cs, t \in ts, c \in caps : Open(k, t, c)
  \/ Close
  \/ "section" \in cs /\ Section
  \/ \E g \in es, v \in {"", "Lbl"} : Entry(g, v)
Next == n < MaxLen /\ n' = n + 1 /\ UNCHANGED head /\ Do(Kinds, Containers, Titles, Captions, Entries)
Some(k, x) == RandomSubset(IF Cardinality(x) < k THEN Cardinality(x) ELSE k, x)
NextSome == n < MaxLen /\ n' = n + 1 /\ UNCHANGED head /\ Do(Some(4, Kinds), Some(2, Containers), {"dot"} \cup Some(1, Titles), {"none"} \cup Some(1, Captions), Some(1, Entries))

\* ---- properties ----------------------------------------------------------------------
Of(g) == SelectSeq(taken, LAMBDA x : x[1] = g)
Consecutive == \A g \in Groups : Of(g) = [i \in 1..Len(Of(g)) |-> <<g, i>>]
Apart == \A g \in Groups : num[g] = Len(Of(g))

RECURSIVE CloseAll(_)
CloseAll(o) == IF o = <<>> THEN <<>> ELSE LET x == o[Len(o)] IN (CASE x.k = "cell" -> <<"|===">> [] x.k = "item" -> <<"", "//-">> [] OTHER -> <<x.d>>) \o CloseAll(SubSeq(o, 1, Len(o) - 1))
Header == CASE head = "none" -> <<>> [] head = "title" -> <<"= Doc", "">> [] head = "listing" -> <<"= Doc", ":listing-caption: Listing", "">>
            [] head = "nofig" -> <<":figure-caption!:", "">> [] head = "tabelle" -> <<"= Doc", ":table-caption: Tabelle", "">>
Case == [ lines |-> Header \o lines \o CloseAll(open), files |-> <<>>, set |-> [safe |-> "safe"],
          also |-> IF adms THEN <<"crlf", "full">> ELSE <<"crlf", "html5s">>,
          expect |-> [ titles |-> shown, diagset |-> <<>> ] ]
Emit == n > 0 /\ shown # <<>> => PrintT("@@" \o ToJson(Case))
=============================================================================
