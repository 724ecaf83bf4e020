------------------------------ MODULE Fragments ------------------------------
(* Documents put together from fragments of markup, without any regard for    *)
(* what fits: any line may follow any line, any piece any piece.  The machine *)
(* predicts little about them, but of every one of them: that it is           *)
(* processed, to the same result each time and with either line ending (see   *)
(* `robust` in the harness), to well-formed HTML, by events which nest (the    *)
(* recorded events are checked against Events.tla).                           *)
(*                                                                            *)
(* Mode "lines" adds lines, mode "pieces" adds pieces of inline markup to one *)
(* line of a host construct, mode "both" mixes them; mode "styled" puts every *)
(* style on every kind of block with titles, ids and content of every kind,   *)
(* modes "repeats" and "replines" repeat a piece or a line many times.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Mode, MaxLen, Groups, Hosts, Attrs, Expect, Variants, Counts

VARIABLES lines, cur, host, attrs, n
vars == <<lines, cur, host, attrs, n>>

\* ---- lines ----------------------------------------------------------------
Line(g) ==
  CASE g = "text" -> {"word", "two words", " indented", "word +", "", "\\u00e9t\\u00e9 \\u65e5\\u672c", "\\ud83d\\ude00", "//", "// comment", "\\", "\\\\", "x\\u00a0y", "\\u0009tab", "\\ufeffbom", "'", "-", "word\\u2028x"}
    [] g = "fence" -> {"----", "....", "====", "****", "____", "++++", "--", "////", "```", "```ruby", "|===", ",===", ":===", "!===", "=====", "-----", "'''", "---", "***", "<<<", "***** ", "__"}
    [] g = "list" -> {"* a", "** b", "*** c", "- d", ". a", ".. b", "1. x", "3. y", "b. z", "ii) w", "a:: b", "a::", "a::: b", "a:::: c", "x;; y", "<1> c", "<.> d", "* [ ] e", "* [x] f", "+", " +", "* ", "*", ".", "::", "a:: b:: c", "  * in", "[[x]]t:: u", "- - x"}
    [] g = "meta" -> {"[source]", "[NOTE]", "[quote]", "[quote, A, B]", "[verse, A]", "[abstract]", "[horizontal]", "[qanda]", "[appendix]", "[discrete]", "[[id1]]", "[#id2]", "[.role]", "[%header]", "[cols=\"1,2a\"]", "[cols=\"1,1\",options=\"header,footer\"]", ".Title", ".*T* footnote:[n]", "[[id1, ref]]", "[]", "[,]", "[=]", "[\"]", "[subs=none]", "[subs=\"+quotes,-macros\"]", "[subs=x]", "[start=5]", "[%reversed]", "[lines]", "[bibliography]", "[glossary]", "[index]", "[preface]", "[partintro]", "[stem]", "[pass]", "[listing]", "[literal]", "[example]", "[sidebar]", "[comment]", "[normal]", "[open]", "[caption=\"C \"]", "[separator=;]", "[format=csv]", "[%hardbreaks]", "[colophon]", "[dedication]", "[toc]"}
    [] g = "head" -> {"= T", "== A", "=== B", "==== C", "===== D", "====== E", "======= F", "# M", "## N", "== ", "=", "==", "== *b* _i_ `m`", "== <<id1>>", "== A [[inline]]", "= T: U", "Ann B <a@b.c>", "v1.0, 2020-01-01: r", "== {empty}", "= ", "= {u}"}
    [] g = "attr" -> {":a: b", ":!a:", ":a!:", ":a:", ":doctype: book", ":toc:", ":toc: macro", ":toc: preamble", ":sectnums:", ":sectnums!:", ":leveloffset: +1", ":leveloffset: -1", ":leveloffset: 9", ":icons: font", ":hardbreaks-option:", ":experimental:", ":idprefix:", ":idseparator:", ":partnums:", ":sectanchors:", ":sectlinks:", ":nofooter:", ":x: a \\", ":x: {x}", ":{u}: v", ":1: 2", ": :", "::", ":example-caption!:", ":table-caption: Tab", ":note-caption!:", ":tabsize: 4", ":toclevels: 5", ":sectnumlevels: 1", ":sectids!:", ":stem:", ":xrefstyle: full", ":source-highlighter: x", ":data-uri:", ":title: T", ":showtitle:", ":notitle:", ":author: A B", ":revnumber: 2"}
    [] g = "dir" -> {"include::a.adoc[]", "include::b.adoc[leveloffset=1]", "include::c.adoc[lines=1..2]", "include::d.adoc[tag=t]", "include::nope.adoc[]", "include::nope.adoc[opts=optional]", "include::e.adoc[indent=2]", "include::a.adoc[tags=**;!t]", "ifdef::a[]", "ifdef::a[in {a}]", "ifndef::a[]", "ifeval::[1 < 2]", "ifeval::[\"{a}\" == \"b\"]", "endif::[]", "endif::a[]", "\\include::a.adoc[]", "\\ifdef::a[]", "include::{a}[]", "include::[]", "ifeval::[]", "ifeval::[1]", "ifdef::[]", "include::f.adoc[]"}
    [] g = "macro" -> {"image::i.png[]", "image::i.png[A,10,20,link=x]", "image::[]", "video::v.mp4[]", "video::x[youtube]", "audio::a.mp3[]", "toc::[]", "image::i.svg[opts=inline]", "image::i.svg[opts=interactive]", "icon::x[]", "stem::[x]", "unknown::x[]", "video::x[vimeo,start=1,opts=\"loop,autoplay\"]"}
    [] g = "table" -> {"|a|b", "|a", "a|b", "2+|x", ".2+|y", "2*|z", "a|* item", "l|lit", "h|head", "^.>s|c", "|a |b\\|c", "a,b", "\"a\"\"b\",c", "\"open", "a:b", "|", "||", "9+|w", ".9+|v", "a|include::a.adoc[]", "!n!m", "a|!===", "0+|x", "1.1+a|", "v|w", "|foo footnote:[z]"}
    [] g = "long" -> {"NOTE: n", "TIP: t", "> quote", "> -- me", "\"q\"", "-- A, B", "-- ", "> > deep", ">", "[quote]", "NOTE:", "* * *", "- - -", "_ _ _", "WARNING: *b*"}
    [] g = "inline" -> {"a *b* _c_ `d` #e#", "*un", "closed*", "<<id1>>", "<<id1,t>>", "<<#>>", "xref:id2[]", "footnote:[f]", "footnote:n[g]", "footnote:n[]", "http://x.y[z]", "http://x.y", "a@b.c", "link:x[y^]", "link:++x y++[z]", "image:i.png[a]", "kbd:[A+B]", "btn:[b]", "menu:F[A > B]", "((term))", "(((a,b,c)))", "indexterm:[a,b]", "indexterm2:[a]", "pass:[<b>x</b>]", "+++<i>y</i>+++", "++a < b++", "+*x*+", "stem:[x^2]", "icon:i[]", "[[in]]x", "[#s]#t#", "[.r]_u_", "anchor:q[]", "\"`q`\"", "'`s`'", "{a}", "{empty}", "{nope}", "{set:x:y}", "{counter:c}", "(C) -- ... -> => '", "a -- b", "x^2^ y~3~", "&amp; & < >", "mailto:a@b.c[m,s,b]", "[[[bib]]] x", "[[[bib,t]]] x", "***", "`+x+`", "footnote:[a <<id1>> b]", "<<bib>>", "pass:q[*x*]", "$$x$$", "a\\*b*"}
\* the lines of included files
File == << <<"/base/a.adoc", <<"in a", "", "* x">>>>, <<"/base/b.adoc", <<"== B", "", "in b">>>>, <<"/base/c.adoc", <<"one", "two", "three">>>>,
           <<"/base/d.adoc", <<"// tag::t[]", "tagged", "// end::t[]", "other">>>>, <<"/base/e.adoc", <<"  in", "", "   deep">>>>, <<"/base/f.adoc", <<"----", "ifdef::a[]", "|===">>>>, <<"/base/b", <<":a: c", "attr">>>> >>

\* ---- pieces of inline markup ------------------------------------------------
Piece(g) ==
  CASE g = "marks" -> {"*", "**", "_", "__", "`", "``", "#", "##", "^", "~", "+", "++", "+++", "\"`", "`\"", "'`", "`'"}
    [] g = "words" -> {"a", "b c", " ", "\\u00e9", "\\ud83d\\ude00", "1", "x.", "\\u0009"}
    [] g = "brackets" -> {"[", "]", "[[", "]]", "<", ">", "<<", ">>", "(", ")", "((", "))", "(((", ")))", "{", "}", "[.r]", "[#i]", "[]"}
    [] g = "specials" -> {"\\", "\\\\", "&", "&amp;", "&#65;", "'", "\"", "--", "...", "->", "<-", "=>", "(C)", ":", "::", ";", ",", "|", "=", "%", "!", "@", ".", "?", "-", "/", "$", "$$", "\\u00a0", "\\u2019"}
    [] g = "macros" -> {"http://x.y", "link:", "xref:", "footnote:", "image:", "kbd:", "menu:", "btn:", "icon:", "pass:", "stem:", "mailto:", "a@b.c", "[z]", "indexterm:", "indexterm2:", "anchor:", "pass:q[", "footnote:[", "footnote:n[", "<<id1,", "{a}", "{empty}", "{nope}", "{", "https://", "<1>"}

Host(h) ==
  CASE h = "para" -> <<"", "">> [] h = "title" -> <<".", "">> [] h = "section" -> <<"== ", "">> [] h = "doctitle" -> <<"= ", "">> [] h = "item" -> <<"* ", "">>
    [] h = "term" -> <<"", ":: d">> [] h = "desc" -> <<"t:: ", "">> [] h = "attr" -> <<":v: ", "">> [] h = "blockattr" -> <<"[", "]">> [] h = "quoteattr" -> <<"[quote, ", "]">>
    [] h = "xref" -> <<"<<id1,", ">>">> [] h = "link" -> <<"http://x.y[", "]">> [] h = "linktarget" -> <<"link:", "[t]">> [] h = "footnote" -> <<"a footnote:[", "] b">> [] h = "strong" -> <<"*", "*">> [] h = "span" -> <<"[.r]#", "#">>
    [] h = "cell" -> <<"|", "">> [] h = "acell" -> <<"a|", "">> [] h = "verse" -> <<"", "">> [] h = "listing" -> <<"", "">> [] h = "image" -> <<"image::", "[]">> [] h = "imagealt" -> <<"image:i.png[", "]">> [] h = "include" -> <<"include::", "[]">>
    [] h = "menu" -> <<"menu:A[", "]">> [] h = "kbd" -> <<"kbd:[", "]">> [] h = "index" -> <<"(((", ")))">> [] h = "admon" -> <<"NOTE: ", "">> [] h = "mdquote" -> <<"> ", "">> [] h = "author" -> <<"", "">> [] h = "revision" -> <<"", "">> [] h = "ifeval" -> <<"ifeval::[", "]">> [] h = "ifdef" -> <<"ifdef::", "[x]">> [] h = "cols" -> <<"[cols=\"", "\"]">> [] h = "pass" -> <<"", "">> [] h = "mono" -> <<"`", "`">> [] h = "csv" -> <<"", "">> [] h = "subs" -> <<"[subs=\"", "\"]">> [] h = "mailto" -> <<"mailto:", "[m]">> [] h = "biblio" -> <<"* [[[", "]]] t">> [] h = "anchor" -> <<"[[", "]]">> [] h = "lines" -> <<"include::c.adoc[lines=", "]">> [] h = "tags" -> <<"include::d.adoc[tags=", "]">> [] h = "callout" -> <<"x ", " <1>">>
Around(h, l) ==
  CASE h \in {"section"} -> <<l, "", "see <<id1>>">> [] h = "doctitle" -> <<l, "", "text">> [] h = "title" -> <<l, "text">> [] h = "attr" -> <<l, "", "text {v}">> [] h \in {"blockattr", "quoteattr", "subs"} -> <<"before", "", l, "text *b*", "", "after">>
    [] h \in {"cell", "acell"} -> <<"|===", l, "|===">> [] h = "verse" -> <<"[verse]", l, "more">> [] h \in {"listing", "callout"} -> <<"----", l, "----", "<1> c">> [] h = "author" -> <<"= T", l, "", "{author}">> [] h = "revision" -> <<"= T", "A B", l, "", "{revnumber}">> [] h \in {"ifeval"} -> <<l, "text", "endif::[]">> [] h = "cols" -> <<l, "|===", "|a |b", "|===">> [] h = "pass" -> <<"[pass,subs=normal]", "++++", l, "++++">> [] h = "csv" -> <<",===", l, ",===">> [] h = "biblio" -> <<"[bibliography]", l>> [] h = "anchor" -> <<l, "text", "", "see <<id1>>">>
    [] OTHER -> <<l>>

\* ---- the machine ------------------------------------------------------------
LineSet == UNION {Line(g) : g \in Groups}
PieceSet == UNION {Piece(g) : g \in Groups \cap {"marks", "words", "brackets", "specials", "macros"}}
LineGroups == Groups \ {"marks", "words", "brackets", "specials", "macros"}
Some(k, x) == RandomSubset(IF Cardinality(x) < k THEN Cardinality(x) ELSE k, x)

\* ---- styled blocks -----------------------------------------------------------
Styles == {"", "source", "source,ruby", "listing", "literal", "example", "sidebar", "quote", "quote,A,B", "verse", "verse,A,B", "abstract", "partintro", "NOTE", "CAUTION", "open", "pass", "stem", "comment", "normal",
           "horizontal", "qanda", "bibliography", "glossary", "index", "appendix", "discrete", "toc", "loweralpha", "upperroman%reversed", "square", "none", "%collapsible", "%collapsible%open", "%hardbreaks", "%interactive", "%header%footer", "cols=\"1,a\"", "caption=\"C \"", "subs=none", "foo", "foo,bar=baz"}
Metas == {<<>>, <<".T *t*">>, <<"[#i.r]">>, <<".T", "[[j,J]]">>}
Blocks == {<<"w x">>, <<"w", "x y">>, <<"----", "w", "----">>, <<"....", "w", "....">>, <<"====", "w", "", "x", "====">>, <<"****", "w", "****">>, <<"____", "w", "____">>, <<"++++", "w", "++++">>, <<"--", "w", "", "* x", "--">>, <<"```", "w", "```">>,
           <<"|===", "|w |x", "", "|y |z", "|===">>, <<"* w", "* x">>, <<". w", ".. x">>, <<"w:: x", "y::", "z">>, <<" w", " x">>, <<"== W", "", "x">>, <<"= W", "", "x">>, <<"image::w.png[]">>, <<"video::w.mp4[]">>, <<"audio::w.mp3[]">>, <<"toc::[]">>, <<"'''">>, <<"<<<">>,
           <<"NOTE: w">>, <<"> w">>, <<"\"w\"", "-- x">>, <<"<1> w">>, <<"====", "====">>, <<"--", "--">>, <<"****", "****">>, <<"____", "____">>, <<"----", "----">>, <<"|===", "|===">>, <<"//w">>, <<"image::w.svg[opts=inline]">>, <<",===", "w,x", ",===">>, <<":w: x">>}
Wrap(h, ls) == CASE h = "item" -> <<"* i", "+">> \o ls [] h = "acell" -> <<"|===", "a|">> \o ls \o <<"|===">> [] h = "section" -> <<"== S", "">> \o ls [] h = "open" -> <<"--">> \o ls \o <<"--">> [] OTHER -> ls
Styled == {Wrap(host, m \o (IF s = "" THEN <<>> ELSE <<"[" \o s \o "]">>) \o b) \o <<"", "after">> : m \in Metas, s \in Styles, b \in Blocks}

\* ---- repetitions ---------------------------------------------------------------
RECURSIVE Rep(_, _), RepLine(_, _)
Rep(p, k) == IF k = 0 THEN "" ELSE IF k % 2 = 1 THEN p \o Rep(p, k - 1) ELSE LET h == Rep(p, k \div 2) IN h \o h
RepLine(l, k) == IF k = 0 THEN <<>> ELSE IF k % 2 = 1 THEN <<l>> \o RepLine(l, k - 1) ELSE LET h == RepLine(l, k \div 2) IN h \o h

Init == lines = <<>> /\ cur = "" /\ n = 0 /\ host \in Hosts /\ attrs \in Attrs
AddLine(l) == lines' = Append(lines, l) /\ UNCHANGED <<cur, host, attrs>>
AddPiece(p) == cur' = cur \o p /\ UNCHANGED <<lines, host, attrs>>
Next ==
  /\ n < MaxLen /\ n' = n + 1
  /\ \/ Mode = "lines" /\ \E l \in UNION {Line(g) : g \in LineGroups} : AddLine(l)
     \/ Mode = "pieces" /\ \E p \in PieceSet : AddPiece(p)
     \/ Mode = "styled" /\ \E ls \in Styled : lines' = lines \o ls /\ UNCHANGED <<cur, host, attrs>>
     \/ Mode = "repeats" /\ \E p \in PieceSet, k \in Counts : AddPiece(Rep(p, k))
     \/ Mode = "replines" /\ \E l \in LineSet \ {""}, k \in Counts, gap \in BOOLEAN : lines' = RepLine(l, k) \o (IF gap THEN <<"", "word">> ELSE <<>>) /\ UNCHANGED <<cur, host, attrs>>
NextSome ==
  /\ n < MaxLen /\ n' = n + 1
  /\ \/ Mode # "pieces" /\ cur = "" /\ \E g \in Some(2, LineGroups) : \E l \in Some(1, Line(g)) : AddLine(l)
     \/ Mode # "lines" /\ \E p \in Some(2, PieceSet) : AddPiece(p)
     \/ cur # "" /\ Mode = "both" /\ lines' = Append(lines, cur) /\ cur' = "" /\ UNCHANGED <<host, attrs>>

Doc == IF Mode \in {"pieces", "repeats"} THEN Around(host, Host(host)[1] \o cur \o Host(host)[2]) ELSE IF cur = "" THEN lines ELSE Append(lines, cur)
Attr(a) == CASE a = "none" -> <<>> [] a = "book" -> <<>> [] a = "a" -> << <<"a", "b", "">>, <<"experimental", "", "">> >> [] a = "toc" -> << <<"toc", "", "">>, <<"sectnums", "", "">>, <<"icons", "font", "">> >>
\* every fragment is added once
Composed == n <= MaxLen /\ (Mode = "lines" => Len(lines) = n)
Case == [ lines |-> Doc, files |-> File, set |-> [safe |-> "safe", doctype |-> IF attrs = "book" THEN "book" ELSE "", attrs |-> Attr(attrs)], also |-> Variants, expect |-> [e \in Expect |-> "ok"] ]
Emit == n > 0 => PrintT("@@" \o ToJson(Case))
=============================================================================
