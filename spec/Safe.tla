-------------------------------- MODULE Safe --------------------------------
(* The safe mode as a gate between a document and everything outside of it.   *)
(*                                                                            *)
(* The machine writes a document line by line: accesses of every kind (files  *)
(* by directives, drawings, pictures, icons, docinfo) at every kind of place, *)
(* and entries trying to change what is allowed.  `calls' are the requests    *)
(* the document may cause.  TLC checks that in secure mode there are none     *)
(* (Sealed), that nothing remote is requested unless the job allows it        *)
(* (Local), and that what the document assigns never widens what the job      *)
(* allows (Narrow: the requests are those of the document without the         *)
(* refused entries).                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Modes, Uris, Datas, Accesses, Places, Entries

VARIABLES mode, uri, job, \* configuration: safe mode, allow-uri-read, data-uri at the job
          hdr, phase,     \* header entries are written first
          data, dir, info, infodir, \* data-uri, imagesdir, docinfo, docinfodir as the document has them
          lines, words, calls, diags, len
vars == <<mode, uri, job, hdr, phase, data, dir, info, infodir, lines, words, calls, diags, len>>

Secure == mode = "secure"
Remote == uri = "yes" /\ ~Secure
Host == "https://h.example/"
Embeds == ~Secure /\ (CASE job = "ro" -> TRUE [] job = "off" -> FALSE [] job = "mod" -> data # "off" [] OTHER -> data = "on")
DirUri == dir = "uri"

\* what a directive names: [t: target as written, to: what it stands for, p: request, w: words of the file, r: remote]
F(t, to, p, w) == [t |-> t, to |-> to, p |-> p, w |-> w, r |-> FALSE]
R(t, to, p, w) == [t |-> t, to |-> to, p |-> p, w |-> w, r |-> TRUE]
Target(a) == CASE a = "rel" -> F("a.adoc", "a.adoc", "/base/a.adoc", <<"wa">>)
               [] a = "up" -> F("../x.adoc", "../x.adoc", "/x.adoc", <<"wx">>)
               [] a = "abs" -> F("/other/y.adoc", "/other/y.adoc", "/other/y.adoc", <<"wy">>)
               [] a = "ref" -> F("{t}", "a.adoc", "/base/a.adoc", <<"wa">>)
               [] a = "uri" -> R(Host \o "z.adoc", Host \o "z.adoc", Host \o "z.adoc", <<"wz">>)
               [] a = "uriref" -> R("{h}/z.adoc", Host \o "z.adoc", Host \o "z.adoc", <<"wz">>)
               [] a = "http" -> R("http://h.example/z.adoc", "http://h.example/z.adoc", "http://h.example/z.adoc", <<"wh">>)
Directives == {"rel", "up", "abs", "ref", "uri", "uriref", "http"}
Pictures == {"svg", "img", "inlimg", "inlsvg", "uriimg", "urisvg", "refimg", "refsvg", "adm", "dataimg"}

\* the result of one directive: [w: words, c: requests, d: diagnostics], v: in a verbatim block
Dir(a, v) ==
  LET t == Target(a) link == IF v THEN "link:" \o t.to \o "[role=include,]" ELSE t.to IN
  IF Secure THEN [w |-> <<link>>, c |-> <<>>, d |-> 0]
  ELSE IF t.r /\ ~Remote THEN [w |-> <<link>>, c |-> <<>>, d |-> 1]
  ELSE [w |-> t.w, c |-> <<t.p>>, d |-> 0]
\* a file with directives in it: one by name, one remote
Nest(v) == LET l == IF v THEN "link:n.adoc[role=include,]" ELSE "n.adoc" x == Dir("rel", v) y == Dir("uri", v) IN
  IF Secure THEN [w |-> <<l>>, c |-> <<>>, d |-> 0]
  ELSE [w |-> <<"n1">> \o x.w \o <<"n2">> \o y.w \o <<"n3">>, c |-> <<"/base/n.adoc">> \o x.c \o y.c, d |-> x.d + y.d]

Path(f) == IF DirUri THEN Host \o "d/" \o f ELSE IF dir = "sub" THEN "/base/sub/" \o f ELSE "/base/" \o f
\* a picture: what is requested and diagnosed
Pic(a) ==
  LET none == [w |-> <<>>, c |-> <<>>, d |-> 0]
      drawing(p, r) == IF Secure THEN none ELSE IF r /\ ~Remote THEN [none EXCEPT !.d = 1, !.w = <<"x">>] ELSE [none EXCEPT !.c = <<p>>]
      picture(p, r) == IF ~Embeds \/ (r /\ ~Remote) THEN none ELSE [none EXCEPT !.c = <<p>>]
  IN CASE a \in {"svg", "inlsvg"} -> drawing(Path("s.svg"), DirUri)
       [] a \in {"urisvg", "refsvg"} -> drawing(Host \o "s.svg", TRUE)
       [] a \in {"img", "inlimg"} -> picture(Path("i.png"), DirUri)
       [] a \in {"uriimg", "refimg"} -> picture(Host \o "i.png", TRUE)
       [] a = "adm" -> [picture("/base/images/icons/note.png", FALSE) EXCEPT !.w = <<"n">>]
       [] OTHER -> none
PicLine(a) == CASE a = "svg" -> "image::s.svg[x,opts=inline]" [] a = "inlsvg" -> "b image:s.svg[x,opts=inline] e" [] a = "urisvg" -> "image::" \o Host \o "s.svg[x,opts=inline]"
                [] a = "img" -> "image::i.png[x]" [] a = "inlimg" -> "b image:i.png[x] e" [] a = "uriimg" -> "image::" \o Host \o "i.png[x]"
                [] a = "refsvg" -> "image::{h}/s.svg[x,opts=inline]" [] a = "refimg" -> "image::{h}/i.png[x]"
                [] a = "adm" -> "NOTE: n" [] a = "dataimg" -> "image::data:image/png;base64,AA==[x]"

Init == /\ mode \in Modes /\ uri \in Uris /\ job \in Datas
        /\ hdr = FALSE /\ phase = "start" /\ data = "-" /\ dir = "-" /\ info = FALSE /\ infodir = "-"
        /\ lines = <<>> /\ words = <<>> /\ calls = <<>> /\ diags = 0 /\ len = 0

Set(r, pre, ls, post, wpre, wpost) ==
  /\ lines' = lines \o pre \o ls \o post
  /\ words' = words \o wpre \o r.w \o wpost /\ calls' = calls \o r.c /\ diags' = diags + r.d
W == "w" \o ToString(len)

\* ---- entries: [s: line, f: takes effect, at: where allowed]
Entry(e) == CASE e = "allow" -> ":allow-uri-read:" [] e = "depth" -> ":max-include-depth: 0" [] e = "docdir" -> ":docdir: /other" [] e = "docfile" -> ":docfile: z" [] e = "maxval" -> ":max-attribute-value-size: 1"
              [] e = "unallow" -> ":!allow-uri-read:"
              [] e = "data" -> ":data-uri:" [] e = "undata" -> ":!data-uri:" [] e = "diruri" -> ":imagesdir: " \o Host \o "d" [] e = "dirsub" -> ":imagesdir: sub"
              [] e = "mode" -> ":safe-mode-name: UNSAFE" [] e = "level" -> ":safe-mode-level: 0" [] e = "info" -> ":docinfo: shared" [] e = "infouri" -> ":docinfodir: " \o Host \o "d"
Refused(e) == e \in {"allow", "unallow", "depth", "docdir", "docfile", "maxval"} \/ (phase = "body" /\ e \in {"info", "infouri"})
Assign(e) ==
  /\ data' = (IF e = "data" THEN "on" ELSE IF e = "undata" THEN "off" ELSE data)
  /\ dir' = (IF e = "diruri" THEN "uri" ELSE IF e = "dirsub" THEN "sub" ELSE dir)
  /\ info' = (info \/ (e = "info" /\ phase = "start")) /\ infodir' = (IF e = "infouri" /\ phase = "start" THEN "uri" ELSE infodir)
Head1 == /\ phase = "start" /\ len < MaxLen
         /\ \E e \in Entries : /\ lines' = Append(IF hdr THEN lines ELSE <<"= T">>, Entry(e)) /\ Assign(e)
                               /\ diags' = diags + (IF Refused(e) THEN 1 ELSE 0)
         /\ hdr' = TRUE /\ len' = len + 1 /\ UNCHANGED <<mode, uri, job, phase, words, calls>>
Body0 == /\ phase = "start" /\ phase' = "body"
         /\ lines' = (IF hdr THEN Append(lines, "") ELSE lines)
         /\ UNCHANGED <<mode, uri, job, hdr, data, dir, info, infodir, words, calls, diags, len>>
\* at the end of the document: the requests of the docinfo files of its header
Infos == LET p == IF infodir = "uri" THEN Host \o "d/" ELSE "/base/" IN
         IF info /\ ~Secure /\ (infodir = "-" \/ Remote) THEN <<p \o "docinfo.html", p \o "docinfo-header.html", p \o "docinfo-footer.html">> ELSE <<>>
AllCalls == calls \o Infos
Entry1 == /\ phase = "body" /\ len < MaxLen
          /\ \E e \in Entries \ {"info", "infouri"} : lines' = lines \o <<Entry(e), "">> /\ Assign(e) /\ diags' = diags + (IF Refused(e) THEN 1 ELSE 0)
          /\ len' = len + 1 /\ UNCHANGED <<mode, uri, job, hdr, phase, words, calls>>

Verbatim(p) == p \in {"listing", "literal"}
Pre(p) == CASE p = "para" -> <<W>> [] p = "alone" -> <<>> [] p = "listing" -> <<"----">> [] p = "literal" -> <<"....">> [] p = "item" -> <<"* " \o W>> [] p = "cell" -> <<"|===", "a|">>
            [] p = "example" -> <<"====">> [] p = "quote" -> <<"____">> [] p = "dd" -> <<"t::">> [] p = "attached" -> <<"* " \o W, "+">> [] p = "if" -> <<"ifdef::t[]">>
            [] p = "section" -> <<"== S" \o W, "">>
Post(p) == CASE p = "listing" -> <<"----", "">> [] p = "literal" -> <<"....", "">> [] p \in {"item", "attached", "dd"} -> <<"", "//", "">> [] p = "cell" -> <<"|===", "">> [] p = "example" -> <<"====", "">> [] p = "quote" -> <<"____", "">>
             [] p = "if" -> <<"endif::[]", "">> [] OTHER -> <<"">>
WPre(p) == CASE p \in {"para", "item", "attached"} -> <<W>> [] p = "dd" -> <<"t">> [] p = "section" -> <<"S" \o W>> [] OTHER -> <<>>
\* a picture is a block of its own
Blocky(p) == p \in {"alone", "cell", "example", "quote", "attached", "if", "section"}
Access ==
  /\ phase = "body" /\ len < MaxLen /\ len' = len + 1
  /\ \E p \in Places, a \in Accesses :
       /\ (a \in Pictures => Blocky(p))
       /\ (a = "nest" => p # "dd") /\ (info => p # "cell")
       /\ LET r == IF a = "nest" THEN Nest(Verbatim(p)) ELSE IF a \in Directives THEN Dir(a, Verbatim(p)) ELSE [Pic(a) EXCEPT !.w = IF a \in {"inlsvg", "inlimg"} THEN <<"b">> \o @ \o <<"e">> ELSE @]
              l == IF a = "nest" THEN "include::n.adoc[]" ELSE IF a \in Directives THEN "include::" \o Target(a).t \o "[]" ELSE PicLine(a)
          IN Set(r, Pre(p), <<l>>, Post(p), WPre(p), <<>>)
  /\ UNCHANGED <<mode, uri, job, hdr, phase, data, dir, info, infodir>>
Next == Head1 \/ Body0 \/ Entry1 \/ Access
----------------------------------------------------------------------------
IsRemote(c) == SubSeq(c, 1, 4) = "http"
Sealed == Secure => AllCalls = <<>>
Local == uri # "yes" => \A i \in DOMAIN AllCalls : ~IsRemote(AllCalls[i])
\* once refused, an entry leaves no trace: `data' and `dir' are all the document decides
Narrow == mode = "secure" => ~Embeds /\ ~Remote
----------------------------------------------------------------------------
Files == << <<"/base/a.adoc", <<"wa">>>>, <<"/x.adoc", <<"wx">>>>, <<"/other/y.adoc", <<"wy">>>>, <<"/base/n.adoc", <<"n1", "include::a.adoc[]", "n2", "include::" \o Host \o "z.adoc[]", "n3">>>>,
            <<Host \o "z.adoc", <<"wz">>>>, <<"http://h.example/z.adoc", <<"wh">>>>,
            <<"/base/s.svg", <<"<svg></svg>">>>>, <<"/base/sub/s.svg", <<"<svg></svg>">>>>, <<Host \o "s.svg", <<"<svg></svg>">>>>, <<Host \o "d/s.svg", <<"<svg></svg>">>>>,
            <<"/base/i.png", <<"png">>>>, <<"/base/sub/i.png", <<"png">>>>, <<Host \o "i.png", <<"png">>>>, <<Host \o "d/i.png", <<"png">>>>, <<"/base/images/icons/note.png", <<"png">>>> >>
Attrs == << <<"t", "a.adoc", "ro">>, <<"h", "https://h.example", "ro">>, <<"icons", TRUE, "ro">> >>
         \o (CASE uri = "yes" -> << <<"allow-uri-read", TRUE, "ro">> >> [] uri = "mod" -> << <<"allow-uri-read", FALSE, "mod">> >> [] OTHER -> <<>>)
         \o (CASE job = "ro" -> << <<"data-uri", TRUE, "ro">> >> [] job = "off" -> << <<"data-uri", FALSE, "ro">> >> [] job = "mod" -> << <<"data-uri", TRUE, "mod">> >> [] OTHER -> <<>>)
Case == [ lines |-> Append(lines, "last"), files |-> Files,
          set |-> [safe |-> mode, attrs |-> Attrs],
          also |-> (IF \E i \in DOMAIN words : words[i] = "n" THEN <<"crlf">> ELSE <<"crlf", "html5s">>) \o (IF diags = 0 THEN <<"strict">> ELSE <<>>),
          expect |-> [calls |-> AllCalls, words |-> Append(words, "last"), ndiags |-> diags, status |-> "ok"] ]
Emit == phase = "body" /\ len > 0 => PrintT("@@" \o ToJson(Case))
=============================================================================
