------------------------------- MODULE Header -------------------------------
(* The document header as a machine reading its lines.                        *)
(*                                                                            *)
(* phase  "pre"   attribute entries, comments and blank lines may precede     *)
(*        "title" the title has just been read: an author line may follow     *)
(*        "author" the author line has just been read: a revision may follow  *)
(*        "attrs" attribute entries and comments                              *)
(*        "body"  the header has ended                                        *)
(* What the header states (title, authors with their parts, revision, other   *)
(* attributes) is state; every reference in the body sees it, and the page    *)
(* shows it.  TLC checks that header lines never become content, nor content  *)
(* header (Disjoint), and that the derived attributes follow from the parts   *)
(* (Derived).                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Jobs, Titles, Firsts, Middles, Lasts, Mails, Revs, Extras, Ends, Bodies

VARIABLES job, phase, title, authors, expl, mail, rev, attrs, lines, words, body, len
vars == <<job, phase, title, authors, expl, mail, rev, attrs, lines, words, body, len>>

None == [s |-> "", v |-> "", i |-> ""]
N(s, v, i) == [s |-> s, v |-> v, i |-> i]
Name(x) == CASE x = "Ann" -> N("Ann", "Ann", "A") [] x = "Mary_Sue" -> N("Mary_Sue", "Mary Sue", "M") [] x = "Zoe" -> N("Zo\\u00eb", "Zo\\u00eb", "Z")
             [] x = "Jean-Luc" -> N("Jean-Luc", "Jean-Luc", "J") [] x = "low" -> N("low", "low", "l") [] x = "Dr." -> N("Dr.", "Dr.", "D")
             [] x = "L." -> N("L.", "L.", "L") [] x = "Al_B" -> N("Al_B", "Al B", "A") [] x = "Cy Di" -> N("Cy Di", "Cy Di", "C") [] x = "de la" -> N("de la", "de la", "d")
             [] x = "Lee" -> N("Lee", "Lee", "L") [] x = "van_Dam" -> N("van_Dam", "van Dam", "v") [] x = "Smith-Jones" -> N("Smith-Jones", "Smith-Jones", "S") [] x = "D.E" -> N("D.E", "D.E", "D")
             [] x = "Ed_E" -> N("Ed_E", "Ed E", "E") [] x = "von" -> N(x, x, "v") [] x = "Ex" -> N(x, x, "E") [] x = "Solo" -> N(x, x, "S") [] OTHER -> None
Join(a, b) == IF a = "" \/ b = "" THEN a \o b ELSE a \o " " \o b
Full(a) == Join(Join(Name(a.f).v, Name(a.m).v), Name(a.l).v)
Source(a) == Join(Join(Join(Name(a.f).s, Name(a.m).s), Name(a.l).s), IF a.e = "" THEN "" ELSE "<" \o a.e \o ">")
Initials(a) == Name(a.f).i \o Name(a.m).i \o Name(a.l).i
Authors == {[f |-> f, m |-> m, l |-> l, e |-> e] : f \in Firsts, m \in Middles, l \in Lasts, e \in Mails}
Author == {a \in Authors : a.m # "-" => a.l # "-"}

NoRev == [n |-> "", d |-> "", r |-> ""]
Rev(x) == CASE x = "v" -> [s |-> "v1.2", n |-> "1.2", d |-> "", r |-> ""]
            [] x = "v1" -> [s |-> "v1", n |-> "1", d |-> "", r |-> ""]
            [] x = "vd" -> [s |-> "v1.2, 2020-01-02", n |-> "1.2", d |-> "2020-01-02", r |-> ""]
            [] x = "nd" -> [s |-> "3, October 4, 2021", n |-> "3", d |-> "October 4, 2021", r |-> ""]
            [] x = "vdr" -> [s |-> "v1.2-b, 2020-01-02: The remark", n |-> "1.2-b", d |-> "2020-01-02", r |-> "The remark"]
            [] x = "nr" -> [s |-> "7.5: A: remark", n |-> "7.5", d |-> "", r |-> "A: remark"]
            [] x = "LPR" -> [s |-> "LPR55, May 5", n |-> "55", d |-> "May 5", r |-> ""]
            [] x = "ndr" -> [s |-> "10.0.1,2 Feb:r", n |-> "10.0.1", d |-> "2 Feb", r |-> "r"]

Title(t) == CASE t = "plain" -> [s |-> "= Ta tb", v |-> "Ta tb", h |-> "Ta tb"] [] t = "hash" -> [s |-> "# Tc", v |-> "Tc", h |-> "Tc"]
              [] t = "amp" -> [s |-> "= Td & te", v |-> "Td & te", h |-> "Td & te"] [] t = "colon" -> [s |-> "= Tf: Tg", v |-> "Tf: Tg", h |-> "Tf: Tg"]
              [] t = "bold" -> [s |-> "= *Th* ti", v |-> "Th ti", h |-> "Th ti"] [] t = "ref" -> [s |-> "= Tj {k}", v |-> "Tj 0", h |-> "Tj 0"]

Get(k) == IF k \in DOMAIN attrs THEN attrs[k] ELSE ""
Put(k, v) == [x \in DOMAIN attrs \cup {k} |-> IF x = k THEN v ELSE attrs[x]]
\* the revision number may be fixed by the job
Number == IF job = "rev" THEN "9.9" ELSE IF Get("revnumber") # "" THEN Get("revnumber") ELSE rev.n
Date == IF Get("revdate") # "" THEN Get("revdate") ELSE rev.d
Remark == rev.r

Init == /\ job \in Jobs /\ phase = "pre" /\ title = "-" /\ authors = <<>> /\ expl = FALSE /\ mail = "" /\ rev = NoRev /\ attrs = [x \in {} |-> ""]
        /\ lines = <<>> /\ words = <<>> /\ body = "-" /\ len = 0

Tick == len < MaxLen /\ len' = len + 1
\* comments, and entries of plain attributes
Extra ==
  /\ phase # "body" /\ Tick
  /\ \E x \in Extras :
       /\ (x = "blank" => phase = "pre" /\ lines # <<>>)
       \* an author given by an entry stands in for the author line, above or below of it
       /\ (x \in {"author", "author1"} => ~expl /\ (authors # <<>> => \A i \in DOMAIN lines : lines[i] # "////"))
       /\ (x = "email" => Len(authors) < 2 /\ mail = "")
       /\ lines' = lines \o (CASE x = "blank" -> <<"">> [] x = "line" -> <<"// c" \o ToString(len)>> [] x = "block" -> <<"////", "Bc " \o ToString(len), "", ":k: no", "////">>
                               [] x = "k" -> <<":k: " \o ToString(len)>> [] x = "unk" -> <<":!k:">> [] x = "cont" -> <<":k: c \\", "  d" \o ToString(len)>>
                               [] x = "author" -> <<":author: Ed_E von Ex">> [] x = "author1" -> <<":author: Solo">> [] x = "email" -> <<":email: z@y.x">>
                               [] x = "revnumber" -> <<":revnumber: 6">> [] x = "revdate" -> <<":revdate: may">>)
       /\ attrs' = (CASE x = "k" -> Put("k", ToString(len)) [] x = "unk" -> [y \in DOMAIN attrs \ {"k"} |-> attrs[y]] [] x = "cont" -> Put("k", "c d" \o ToString(len))
                      [] x = "revnumber" -> Put("revnumber", "6") [] x = "revdate" -> Put("revdate", "may") [] OTHER -> attrs)
       /\ authors' = (CASE x = "author" -> <<[f |-> "Ed_E", m |-> "von", l |-> "Ex", e |-> ""]>> [] x = "author1" -> <<[f |-> "Solo", m |-> "-", l |-> "-", e |-> ""]>> [] OTHER -> authors)
       /\ expl' = (expl \/ x \in {"author", "author1"}) /\ mail' = (IF x = "email" THEN "z@y.x" ELSE mail)
  /\ phase' = (IF phase = "pre" THEN "pre" ELSE "attrs")
  /\ UNCHANGED <<job, title, rev, words, body>>
ReadTitle ==
  /\ phase = "pre" /\ Tick /\ phase' = "title"
  /\ \E t \in Titles : /\ (t = "ref" => "k" \in DOMAIN attrs /\ attrs["k"] = "0")
                       /\ title' = t /\ lines' = Append(lines, Title(t).s)
  /\ UNCHANGED <<job, authors, expl, mail, rev, attrs, words, body>>
ReadAuthors ==
  /\ phase = "title" /\ Tick /\ phase' = "author"
  /\ \E a \in Author : \/ authors' = (IF expl THEN authors ELSE <<a>>) /\ lines' = Append(lines, Source(a))
                       \/ \E b \in Author : a # b /\ mail = "" /\ authors' = (IF expl THEN authors ELSE <<a, b>>) /\ lines' = Append(lines, Source(a) \o "; " \o Source(b))
  /\ UNCHANGED <<job, title, expl, mail, rev, attrs, words, body>>
ReadRev ==
  /\ phase = "author" /\ Tick /\ phase' = "attrs"
  /\ \E r \in Revs : rev' = [n |-> Rev(r).n, d |-> Rev(r).d, r |-> Rev(r).r] /\ lines' = Append(lines, Rev(r).s)
  /\ UNCHANGED <<job, title, authors, expl, mail, attrs, words, body>>
\* the header ends, at a blank line or at a line which is none of its own
End ==
  /\ phase # "body" /\ phase' = "body" /\ lines # <<>>
  /\ \E e \in Ends, b \in Bodies :
       /\ (e = "direct" => phase \notin {"pre"} /\ (b \in {"para", "rev"} => phase = "attrs"))
       /\ lines' = lines \o (IF e = "blank" THEN <<"">> ELSE <<>>)
            \o (CASE b = "para" -> <<"wa wb", "">> [] b = "rev" -> <<"v3.4, 2021-01-01: wa", "">> [] b = "item" -> <<"* wa", "">> [] b = "listing" -> <<"----", "wa", ":x: y", "----", "">>
                  [] b = "section" -> <<"== Wa", "">> [] b = "names" -> <<"Wa Wb <w@c.d>", "v1.2", "">> [] b = "attrs" -> <<"[.role]", "wa", "">> [] b = "title" -> <<".Wa", "wb", "">>)
       /\ (b \in {"names"} => e = "blank")
       /\ (b \in {"attrs", "title", "section"} => e = "blank")
       /\ words' = (CASE b = "para" -> <<"wa", "wb">> [] b = "rev" -> <<"v3.4,", "2021-01-01:", "wa">> [] b = "item" -> <<"wa">> [] b = "listing" -> <<"wa", ":x:", "y">>
                      [] b = "section" -> <<"Wa">> [] b = "names" -> <<"Wa", "Wb", "<w@c.d>", "v1.2">> [] b = "attrs" -> <<"wa">> [] b = "title" -> <<"Wa", "wb">>)
       /\ body' = b
  /\ UNCHANGED <<job, title, authors, expl, mail, rev, attrs, len>>
Next == Extra \/ ReadTitle \/ ReadAuthors \/ ReadRev \/ End
----------------------------------------------------------------------------
Disjoint == phase # "body" => words = <<>>
Derived == \A i \in DOMAIN authors : Len(Initials(authors[i])) >= 1 /\ Full(authors[i]) # ""
Ordered == /\ (rev # NoRev => authors # <<>> /\ title # "-") /\ (authors # <<>> => title # "-" \/ expl)
----------------------------------------------------------------------------
Ref(name, v) == name \o "=" \o (IF v = "" THEN "{" \o name \o "}" ELSE v)
A(i) == IF i \in DOMAIN authors THEN authors[i] ELSE [f |-> "-", m |-> "-", l |-> "-", e |-> ""]
Two == Len(authors) = 2
RefLines == <<"author={author}", "firstname={firstname}", "middlename={middlename}", "lastname={lastname}", "authorinitials={authorinitials}", "authors={authors}",
              "author_1={author_1}", "author_2={author_2}", "lastname_2={lastname_2}", "authorinitials_2={authorinitials_2}", "revnumber={revnumber}", "revdate={revdate}", "revremark={revremark}", "k={k}">>
Values == <<Ref("author", Full(A(1))), Ref("firstname", Name(A(1).f).v), Ref("middlename", Name(A(1).m).v), Ref("lastname", Name(A(1).l).v), Ref("authorinitials", Initials(A(1))),
            Ref("authors", IF Two THEN Full(A(1)) \o ", " \o Full(A(2)) ELSE Full(A(1))), Ref("author_1", Full(A(1))), Ref("author_2", Full(A(2))), Ref("lastname_2", Name(A(2).l).v),
            Ref("authorinitials_2", Initials(A(2))), Ref("revnumber", Number), Ref("revdate", Date), Ref("revremark", Remark), Ref("k", Get("k"))>>
EMail(i) == IF i = 1 /\ mail # "" THEN mail ELSE A(i).e
AllLines == lines \o RefLines \o <<"", "{email}", "", "{email_2}", "">> \o (IF title \in {"plain", "colon"} THEN <<"{doctitle}", "">> ELSE <<>>)
RECURSIVE JoinAll(_)
JoinAll(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o " " \o JoinAll(Tail(s))
\* the text of the body, line for line
Text == Values \o <<IF EMail(1) = "" THEN "{email}" ELSE EMail(1), IF EMail(2) = "" THEN "{email_2}" ELSE EMail(2)>> \o (IF title \in {"plain", "colon"} THEN <<Title(title).v>> ELSE <<>>)
JobAttrs == IF job = "rev" THEN << <<"revnumber", "9.9", "ro">> >> ELSE <<>>
Case == [ lines |-> AllLines, set |-> [attrs |-> JobAttrs], also |-> <<"crlf", "html5s", "noeol">>,
          expect |-> [text |-> JoinAll(words \o Text), ndiags |-> 0] ]
AuthorDetails(i) == LET n == IF i = 1 THEN "" ELSE ToString(i) a == authors[i] IN
  << <<"author" \o n, Full(a)>> >> \o (IF EMail(i) = "" THEN <<>> ELSE << <<"email" \o n, EMail(i)>> >>)
Details == << <<"title", Title(title).v>>, <<"h1", Title(title).h>> >>
  \o (IF authors = <<>> THEN <<>> ELSE IF Two THEN AuthorDetails(1) \o AuthorDetails(2) ELSE AuthorDetails(1))
  \o (IF Number = "" THEN <<>> ELSE << <<"revnumber", "version " \o Number \o (IF Date = "" THEN "" ELSE ",")>> >>)
  \o (IF Date = "" THEN <<>> ELSE << <<"revdate", Date>> >>)
  \o (IF Remark = "" THEN <<>> ELSE << <<"revremark", Remark>> >>)
Page == [ lines |-> AllLines, set |-> [attrs |-> JobAttrs, embedded |-> FALSE], also |-> <<"crlf", "html5s">>, expect |-> [details |-> Details, ndiags |-> 0] ]
Emit == phase = "body" => PrintT("@@" \o ToJson(Case)) /\ (title # "-" => PrintT("@@" \o ToJson(Page)))
=============================================================================
