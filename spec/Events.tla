------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* The protocol between the evaluator and a backend: a stack machine.  A   *)
(* frame is a construct which has been started and not ended, with the     *)
(* state of the small automaton that says what may come next inside it.    *)
(* An event is [k, n, a]: k is "+" (start), "-" (end) or "=" (visit), n    *)
(* the construct, a a number (section and toc levels, table section).      *)
(* Sections out of sequence, which are reported, stay among the blocks     *)
(* where they were found.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxLen, MaxDepth, Kinds

Spans == {"inline_italic", "inline_mono", "inline_bold", "inline_lit_mono", "inline_highlight", "inline_subscript",
          "inline_superscript", "inline_quote", "inline_passthrough", "text_span", "footnote", "link_macro",
          "mailto_macro", "xref", "visible_index_term", "concealed_index_term"}
InlineVisits == {"inline_text", "joining_newline", "curly_quote", "multichar_whitespace", "button_macro", "menu_macro",
                 "image_macro", "icon_macro", "spaced_dashes", "plugin_macro", "keyboard_macro", "callout", "callout_tuck",
                 "inline_specialchar", "inline_anchor", "biblio_anchor", "symbol", "linebreak"}
Texts == {"document_title", "section_heading", "book_part_title", "meta_title", "simple_block_content", "list_item_principal",
          "description_list_term", "quote_attribution", "quote_cite", "cell_paragraph", "toc_content", "xref_text",
          "discrete_heading", "concealed_index_term_primary", "concealed_index_term_secondary", "concealed_index_term_tertiary"}
Lists == {"unordered_list", "ordered_list", "callout_list"}
Plain == {"paragraph_block", "listing_block", "literal_block", "passthrough_block"}
Either == {"sidebar_block", "example_block"}
Titled == Lists \cup Plain \cup Either \cup
          {"open_block", "quote_block", "verse_block", "image_block", "admonition_block", "quoted_paragraph",
           "description_list", "table", "audio_macro", "video_macro"}
Untitled == {"document_attribute_decl", "discrete_heading", "thematic_break", "page_break", "toc"}
BlockVisits == {"document_attribute_decl", "thematic_break", "page_break", "audio_macro", "video_macro"}
Visits == InlineVisits \cup BlockVisits \cup {"missing_xref"}

\* what may follow: <<state, event, state>>
T(from, ns, to) == {<<f, n, to>> : f \in from, n \in ns}
Inline == T({"0"}, Spans \cup InlineVisits, "0")
\* blocks in state s; a title is followed by the block it belongs to
Blocks(s) == T({s}, Titled \cup Untitled, s) \cup T({s}, {"meta_title"}, "titled") \cup T({"titled"}, Titled, s)
Quote == T({"1"}, {"quote_attribution"}, "2") \cup T({"1", "2"}, {"quote_cite"}, "3")

Auto == [n \in {"root"} |-> T({"0"}, {"document"}, "1")]
  @@ [n \in {"cell_document"} |-> T({"0"}, {"document"}, "1")]
  @@ [n \in {"document"} |-> Inline \cup T({"0"}, {"body"}, "1")]
  @@ [n \in {"body"} |-> Inline \cup T({"0"}, {"header"}, "h") \cup T({"h"}, {"toc"}, "t") \cup T({"h", "t"}, {"content"}, "c")
                          \cup T({"c"}, {"footer"}, "f") \cup T({"f"}, Spans \cup InlineVisits, "f")]
  @@ [n \in {"header"} |-> T({"0"}, {"document_title"}, "1")]
  @@ [n \in {"footer", "image_block"} |-> {}]
  @@ [n \in {"content"} |-> T({"0"}, Titled \cup Untitled, "b") \cup T({"0"}, {"meta_title"}, "titled") \cup Blocks("b")
                             \cup T({"0"}, {"preamble"}, "p") \cup T({"0", "p", "s"}, {"section"}, "s") \cup T({"b"}, {"section"}, "b")
                             \cup T({"0", "p", "s", "P"}, {"book_part"}, "P") \cup T({"P", "z"}, {"section"}, "z")]
  @@ [n \in {"preamble", "book_part_intro_content"} |-> Blocks("0") \cup T({"0"}, {"section"}, "0")]
  @@ [n \in {"compound_block_content"} |-> Blocks("0")]
  @@ [n \in {"list_item_blocks"} |-> Blocks("0") \cup T({"0"}, {"section"}, "0")]
  @@ [n \in {"section"} |-> T({"0"}, {"section_heading"}, "b") \cup Blocks("b") \cup T({"b", "s"}, {"section"}, "s")]
  @@ [n \in {"book_part"} |-> T({"0"}, {"book_part_title"}, "1") \cup T({"1"}, {"book_part_intro"}, "2")
                               \cup T({"1", "2", "3"}, {"section"}, "3")]
  @@ [n \in {"book_part_intro"} |-> Inline \cup T({"0"}, {"book_part_intro_content"}, "1")]
  @@ [n \in Plain |-> T({"0"}, {"simple_block_content"}, "1")]
  @@ [n \in Either |-> T({"0"}, {"simple_block_content", "compound_block_content"}, "1")]
  @@ [n \in {"open_block"} |-> T({"0"}, {"compound_block_content"}, "1")]
  @@ [n \in {"verse_block"} |-> T({"0"}, {"simple_block_content"}, "1") \cup Quote]
  @@ [n \in {"quote_block"} |-> T({"0"}, {"simple_block_content", "compound_block_content"}, "1") \cup Quote]
  @@ [n \in {"quoted_paragraph"} |-> Inline \cup T({"0"}, {"quote_attribution"}, "2") \cup Quote]
  @@ [n \in {"admonition_block"} |-> T({"0"}, {"compound_block_content"}, "1") \cup T({"0", "2"}, Spans \cup InlineVisits, "2")]
  @@ [n \in Lists |-> T({"0", "2"}, {"list_item_principal"}, "1") \cup T({"1"}, {"list_item_blocks"}, "2")]
  @@ [n \in {"description_list"} |-> T({"0", "t", "d"}, {"description_list_term"}, "t")
                                      \cup T({"t"}, {"description_list_description"}, "d")]
  @@ [n \in {"description_list_description"} |-> T({"0"}, {"description_list_description_text"}, "1")
                                                  \cup T({"0", "1"}, {"description_list_description_block"}, "1")]
  @@ [n \in {"description_list_description_text", "description_list_description_block"} |->
        T({"0"}, Titled \cup Untitled \cup {"section"}, "1") \cup T({"0"}, {"meta_title"}, "titled") \cup T({"titled"}, Titled, "1")]
  @@ [n \in {"table"} |-> T({"0", "h", "b"}, {"table_section"}, "b")]
  @@ [n \in {"table_section"} |-> T({"0", "r"}, {"table_row"}, "r")]
  @@ [n \in {"table_row"} |-> T({"0", "c"}, {"table_cell"}, "c")]
  @@ [n \in {"table_cell"} |-> T({"0", "p"}, {"cell_paragraph"}, "p") \cup T({"0"}, {"cell_document"}, "d")
                                \cup T({"0", "l"}, Spans \cup InlineVisits, "l")]
  @@ [n \in {"toc"} |-> T({"0"}, {"toc_level"}, "1")]
  @@ [n \in {"toc_level"} |-> T({"0", "1"}, {"toc_node"}, "1")]
  @@ [n \in {"toc_node"} |-> T({"0"}, {"toc_content"}, "1") \cup T({"1"}, {"toc_level"}, "2")]
  @@ [n \in {"xref"} |-> T({"0"}, {"xref_text", "missing_xref"}, "1")]
  @@ [n \in {"concealed_index_term"} |-> T({"0"}, {"concealed_index_term_primary"}, "1")
        \cup T({"1"}, {"concealed_index_term_secondary"}, "2") \cup T({"2"}, {"concealed_index_term_tertiary"}, "3")]
  @@ [n \in (Spans \ {"xref", "concealed_index_term"}) \cup Texts |-> Inline]

Constructs == DOMAIN Auto
States(n) == {"0"} \cup {t[1] : t \in Auto[n]} \cup {t[3] : t \in Auto[n]}
\* in which states a construct may end
Final(n) ==
  CASE n \in {"root", "cell_document", "document", "book_part_intro", "toc", "toc_level", "xref", "open_block"} \cup Plain \cup Either -> {"1"}
    [] n = "body" -> {"f"}
    [] n \in {"quote_block", "verse_block"} -> {"1", "2", "3"}
    [] n = "quoted_paragraph" -> {"2", "3"}
    [] n \in Lists -> {"2"}
    [] n = "table_section" -> {"r"}
    [] n = "table_row" -> {"0", "c"}
    [] n \in {"section", "book_part", "toc_node", "concealed_index_term", "description_list", "description_list_description"} -> States(n) \ {"0", "titled"}
    [] OTHER -> States(n) \ {"titled"}

\* as functions, which TLC evaluates once
Next1 == [n \in Constructs |-> [x \in {<<t[1], t[2]>> : t \in Auto[n]} |-> (CHOOSE t \in Auto[n] : <<t[1], t[2]>> = x)[3]]]
Ends == [n \in Constructs |-> Final(n)]

ASSUME Deterministic == \A n \in Constructs : \A t, u \in Auto[n] : <<t[1], t[2]>> = <<u[1], u[2]>> => t[3] = u[3]
ASSUME NamesKnown == \A n \in Constructs : \A t \in Auto[n] : t[2] \in Constructs \cup Visits
ASSUME \A n \in Constructs : n \notin Visits
\* whatever has been started can be ended: every state has a way to a final one
RECURSIVE Back(_, _)
Back(n, s) == LET p == s \cup {t[1] : t \in {u \in Auto[n] : u[3] \in s}} IN IF p = s THEN s ELSE Back(n, p)
ASSUME CanEnd == \A n \in Constructs : States(n) \subseteq Back(n, Final(n))
\* whatever is described can occur: every construct is reachable from the root
RECURSIVE Below(_)
Below(s) == LET p == s \cup UNION {{t[2] : t \in Auto[n]} : n \in s \ Visits} IN IF p = s THEN s ELSE Below(p)
ASSUME NothingDead == Below({"root"}) = Constructs \cup Visits

Root == <<[n |-> "root", a |-> 0, s |-> "0"]>>
Rejected == << >>

Top(st) == st[Len(st)]
Pop(st) == SubSeq(st, 1, Len(st) - 1)
Inside(st, n) == \E i \in 1..Len(st) : st[i].n = n

\* numbers: nested sections and toc levels go deeper, a table has at most one
\* header, body and footer in this order, header and footer one row, and the
\* table of contents defines no notes and no anchors again
\* (parts are listed among the sections before them, which makes a 1 below a 1)
Deeper(st, e) == e.a > Top(Pop(st)).a \/ (e.a = 1 /\ Top(Pop(Pop(st))).n # "toc_node")
ArgFits(st, e) ==
  CASE e.n = "section" -> Top(st).n # "section" \/ e.a > Top(st).a
    [] e.n = "toc_level" -> Top(st).n # "toc_node" \/ (Top(Pop(st)).n = "toc_level" /\ Deeper(st, e))
    [] e.n = "table_section" -> Top(st).s = "0" \/ e.a > Top(st).a
    [] e.n = "table_row" -> Top(st).s = "0" \/ Top(st).a = 1
    [] e.n \in {"footnote", "inline_anchor"} -> ~Inside(st, "toc")
    [] OTHER -> TRUE

Step(st, e) ==
  LET top == Top(st)
      x == <<top.s, e.n>>
      moved == Append(Pop(st), [top EXCEPT !.s = Next1[top.n][x], !.a = IF top.n = "table" THEN e.a ELSE @])
  IN IF st = Rejected THEN Rejected
     ELSE IF e.k = "-" THEN IF top.n = e.n /\ (top.a = e.a \/ e.n = "table") /\ top.s \in Ends[top.n] /\ Len(st) > 1 THEN Pop(st) ELSE Rejected
     ELSE IF x \notin DOMAIN Next1[top.n] \/ ~ArgFits(st, e) THEN Rejected
     ELSE IF e.k = "=" THEN IF e.n \in Visits THEN moved ELSE Rejected
     ELSE IF e.n \in Constructs THEN Append(moved, [n |-> e.n, a |-> IF e.n = "table" THEN 0 ELSE e.a, s |-> "0"]) ELSE Rejected

\* ---- the machine itself
VARIABLES stack, word
vars == <<stack, word>>

Init == stack = Root /\ word = << >>

Args(n) == CASE n \in {"section", "toc_level"} -> 1..2 [] n = "table_section" -> 0..2 [] OTHER -> {0}
Event(e) == LET st == Step(stack, e) IN /\ st # Rejected /\ Len(st) <= MaxDepth /\ stack' = st /\ word' = Append(word, e)
Ended == Len(stack) = 1 /\ Top(stack).s = "1"
Next == /\ Len(word) < MaxLen
        /\ \/ \E n \in Kinds \cap Constructs, k \in {"+", "-"} : \E a \in Args(n) : Event([k |-> k, n |-> n, a |-> a])
           \/ \E n \in Kinds \cap Visits : Event([k |-> "=", n |-> n, a |-> 0])

\* the words of the machine are properly nested, and the document frames them
Opened(i) == Cardinality({j \in 1..i : word[j].k = "+"}) - Cardinality({j \in 1..i : word[j].k = "-"})
Nested == \A i \in 1..Len(word) : word[i].k = "-" =>
            \E j \in 1..(i - 1) : /\ word[j].k = "+" /\ word[j].n = word[i].n /\ word[j].a = word[i].a
                                  /\ \A m \in j..(i - 1) : Opened(m) >= Opened(i) + 1
Framed == \A i \in 1..Len(word) : word[i].k = "=" \/ (word[i].k = "+" /\ i > 1) => i > 1 /\ Opened(i - 1) > 0
Counted == Opened(Len(word)) = Len(stack) - 1
Emit == TRUE
=============================================================================
