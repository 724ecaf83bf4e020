#!/usr/bin/env python3
"""Source of properties.jsonl (run it after editing)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=False):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m) for n, m in state]
    if observe: a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

p('C01', 'Attribute values follow the assignment precedence at every point',
  'At every reference in a document, an attribute has the value given by the assignment precedence: a read-only value given by the job always wins, otherwise the latest assignment or unset above the reference in the body, then the header, then a modifiable value given by the job, then a built-in default. An assignment that is not allowed where it stands is reported and changes nothing.',
  ['histories', 'configurations'], 'every sequence of attribute entries (set, set empty, unset) in header and body, every combination of job attributes (read-only, modifiable, unset), for ordinary, header-only and job-only names, and every reference point in between',
  'The tests assert single hand-picked combinations; the guarantee is about every history of assignments and every layer combination.',
  ['core/src/document_meta.rs', 'core/src/attrs.rs', 'core/src/job_attrs.rs', 'parser/src/tasks/parse_doc_attrs.rs', 'eval/src/eval.rs'],
  [('layered lookup', 'core/src/document_meta.rs get/insert_*'), ('attribute entry recognition', 'parser/src/tasks/parse_doc_attrs.rs'), ('replay of body entries to the backend', 'eval/src/eval.rs')],
  [('attribute layers', 'job read-only, body, header, defaults, job modifiable')])

p('C02', 'Conditional directives select exactly the enclosed lines that hold',
  'A source line reaches the document iff every ifdef, ifndef or ifeval that encloses it holds at the point where that conditional is written; nested, named, anonymous and single-line forms pair with the right end, and nothing in a skipped region (directives, attribute entries, end markers that are escaped or in running text) has any effect. An end marker that closes nothing, and a skipped region that is never closed, is reported on its line.',
  ['inputs', 'histories'], 'every sequence of text lines, attribute entries, conditional openers (defined/undefined, any/all lists, expressions), single-line conditionals and end markers, in paragraphs, listings, included files, table cells and document headers',
  'The tests exercise a few nesting shapes; correctness is a statement about all interleavings of openers, closers and attribute changes.',
  ['parser/src/tasks/directives/ifdef.rs', 'parser/src/tasks/directives/ifeval.rs', 'parser/src/tasks/directives/mod.rs', 'parser/src/parser.rs', 'parser/src/line.rs'],
  [('stack of open conditionals', 'parser/src/tasks/directives/ifdef.rs'), ('skipping to the matching end', 'skip_lines_until_endif'), ('expression evaluation', 'parser/src/tasks/directives/ifeval.rs')],
  [('open conditionals', 'the live conditionals not yet closed'), ('skip depth', 'conditionals opened inside the region being skipped')])

p('C03', 'Includes splice the right file at the right place, and always terminate',
  'Parsing a document with include directives gives the same content as if each accepted directive were replaced by the lines of the file it names (relative to the including file, or to the base directory for the main document), in any nesting, at any position, including at the end of a file. No include graph, cyclic ones included, makes the parser nest deeper than the allowed depth or fail to terminate, and a directive that is not accepted (depth, missing file) leaves its diagnostic and the documented replacement text, or nothing if it is optional.',
  ['inputs', 'histories'], 'every assignment of contents with include directives to a small set of files in several directories (all include graphs), every maximum depth, relative depth attributes, optional and missing targets, in paragraphs, delimited blocks, lists and table cells',
  'The tests cover individual include shapes with at most two levels; the guarantee is about every include graph and position.',
  ['parser/src/tasks/directives/includes/process_includes.rs', 'parser/src/tasks/directives/includes/target.rs', 'parser/src/lexer/root_lexer.rs', 'parser/src/parser.rs'],
  [('source stack', 'parser/src/lexer/root_lexer.rs'), ('depth limit', 'exceeded_max_include_depth'), ('target resolution', 'parser/src/tasks/directives/includes/target.rs')],
  [('source stack', 'files being read, innermost last'), ('depth limits', 'absolute and relative include depth in effect')])

p('C04', 'Include line and tag selection returns exactly the selected lines',
  'An include with a line-range selection contributes exactly the selected lines of the file in file order; with a tag selection it contributes exactly the lines whose innermost matching tag region is selected by the tag rules (names, negations, single and double wildcards), never tag directive lines. Unknown, unclosed and mismatched tags are reported, and indentation normalisation changes only leading blanks.',
  ['inputs'], 'every small file built from text lines, nested tag regions, mismatched or missing end markers, and every small combination of line ranges or tag selectors, and indent values',
  'Tests check a handful of tag lists on fixed files; the semantics is a function of all nestings and selector combinations.',
  ['parser/src/tasks/directives/includes/tags.rs', 'parser/src/tasks/directives/includes/normalize_includes.rs', 'parser/src/tasks/directives/includes/process_includes.rs'],
  [('tag stack and selection', 'parser/src/tasks/directives/includes/tags.rs'), ('line ranges', 'parser/src/tasks/directives/includes/tags.rs select_lines')],
  [('tag stack', 'open tag regions at a line'), ('selection state', 'whether the current line is selected')])

p('C05', 'The safe mode gates every access outside the document',
  'In secure mode no include is ever resolved, whatever directives, nesting, table cells or attributes the document contains: each becomes a link instead; remote targets are only requested in modes up to server when remote reading was allowed by the job itself. A document can never relax its own restrictions: job-only attributes (remote reading, include depth and the like) are refused in header and body and leave behaviour unchanged.',
  ['configurations', 'inputs', 'histories'], 'every safe mode, every layer in which a restricting attribute can be assigned, every kind of target (relative, absolute, parent-relative, remote) in every position (header, body, block, cell, included file, behind attribute references)',
  'Tests look at one directive per mode; the guarantee quantifies over all places and histories a directive or attribute can occur in.',
  ['parser/src/tasks/directives/includes/process_includes.rs', 'core/src/document_meta.rs', 'core/src/job_attrs.rs', 'parser/src/docinfo.rs', 'parser/src/tasks/parse_doc_header.rs'],
  [('mode gate before resolution', 'parser/src/tasks/directives/includes/process_includes.rs'), ('job-only attributes', 'core/src/document_meta.rs'), ('lockdown', 'lockdown_secure_mode')],
  [('safe mode', 'unsafe, safe, server or secure'), ('restricting attributes', 'allow-uri-read, max-include-depth, data-uri, linkcss, ...')], ['include resolver calls', 'HTML output'])

p('C06', 'The command line tool stays inside its base directory and reports honestly',
  'Unless run in unsafe mode, the tool reads no file outside the base directory, whatever mixture of relative, absolute, parent-relative or symlinked include targets the document uses; a refused include contributes none of the file. Its exit status is success iff output was produced, strict mode fails iff a diagnostic exists, attribute flags set, unset and lock attributes as documented, and output goes entirely to the requested place.',
  ['configurations', 'inputs'], 'every combination of safe mode, base directory, target spelling and directory layout, attribute flag forms, strict/embedded/format options, stdin or file input',
  'CLI tests cover a few fixed invocations; containment is a statement over all target spellings and layouts.',
  ['cli/src/resolver.rs', 'cli/src/main.rs', 'cli/src/args.rs', 'cli/src/css.rs', 'cli/src/error.rs'],
  [('containment check', 'cli/src/resolver.rs'), ('argument parsing', 'cli/src/args.rs'), ('exit status', 'cli/src/main.rs')],
  [('base directory', 'root of what may be read'), ('file system layout', 'files, directories, symbolic links')], ['exit status', 'stdout', 'stderr', 'files read'])

p('C07', 'Section structure mirrors heading levels and level offsets',
  'For every sequence of headings, the document tree nests each section under the nearest preceding heading of lower effective level, keeps every block in the section it was written in, and renders each heading with its own level; level offsets (attribute, relative and include-scoped) shift effective levels exactly where they are in force. Out-of-sequence levels and misplaced level-0 headings are reported on their line and lose no content.',
  ['inputs', 'histories'], 'every sequence of headings of all levels, blocks, level offset changes, discrete headings and includes with offsets, in articles and books',
  'Tests contain a few fixed outlines; nesting correctness is a statement about every sequence of levels and offsets.',
  ['parser/src/tasks/parse_section.rs', 'parser/src/tasks/heading_level.rs', 'parser/src/tasks/parse_book.rs', 'parser/src/tasks/parse_book_part.rs', 'backend/src/html/backend.rs'],
  [('level computation', 'parser/src/tasks/heading_level.rs'), ('recursive descent', 'parser/src/tasks/parse_section.rs'), ('parts', 'parser/src/tasks/parse_book.rs')],
  [('section path', 'open sections, outermost first'), ('level offset', 'attribute and include offsets in force')])

p('C08', 'Generated ids are unique and cross references resolve to them',
  'All automatically generated section ids in a document are distinct, are derived from the title by the documented rules under the configured prefix and separator, and never displace an explicit id. Every cross reference to an existing id links to it with the referenced text (its own text, the reference text, or the title), forward or backward, across nesting and table cells, and every reference to a missing id is reported.',
  ['inputs', 'histories'], 'every sequence of sections with colliding or explicit ids, anchors, prefix and separator changes, and references by every form placed before or after their target',
  'Tests assert isolated references; uniqueness and resolution are whole-document properties over all combinations.',
  ['parser/src/tasks/section_id.rs', 'parser/src/tasks/anchors.rs', 'parser/src/tasks/diagnose_document.rs', 'eval/src/eval.rs', 'backend/src/html/backend.rs'],
  [('id generation and collision counter', 'parser/src/tasks/section_id.rs'), ('anchor table', 'parser/src/tasks/anchors.rs'), ('reference text', 'eval/src/eval.rs')],
  [('anchor table', 'ids seen so far with their reference texts')])

p('C09', 'Section numbers, part and appendix signifiers, and the TOC agree with the tree',
  'With numbering on, every numbered section shows the number of its position (counters restart under each parent, continue across unnumbered siblings, follow the numbering switch at that point and the depth limit), appendices are lettered and parts get their own numerals when asked. The table of contents lists exactly the sections up to the configured depth, in order, nested as in the body, with the same titles, numbers and links.',
  ['inputs', 'histories', 'configurations'], 'every outline with numbering toggles, appendices, special sections and parts, and every numbering depth and contents depth',
  'Tests use a few outlines; agreement between TOC, numbering and body is a relation over all trees.',
  ['backend/src/html/backend.rs', 'eval/src/eval.rs', 'dr-html-backend/src/asciidoctor_html.rs', 'backend-html5s/src/html5s.rs', 'parser/src/tasks/parse_section.rs'],
  [('section counters', 'backend/src/html/backend.rs'), ('toc construction', 'eval/src/eval.rs')],
  [('section counters', 'per-level counters and appendix letter')])

p('C10', 'Lists nest by marker history',
  'For every sequence of list item markers, an item joins the innermost open list with the same marker, or opens a list nested in the current item if its marker is new; ordered, unordered, callout and description lists mix by the same rule. Attached blocks (continuations) belong to the item they follow, blank lines and comments do not split lists unless they separate them by the documented rules, and no item text is lost or reordered.',
  ['inputs', 'histories'], 'every sequence of items over all marker kinds and lengths, attached blocks, blank lines, comments, block attributes and following paragraphs',
  'Tests have individual list samples; nesting is defined by the history of markers and cannot be settled by samples.',
  ['parser/src/tasks/parse_list.rs', 'parser/src/list_context.rs', 'parser/src/line.rs', 'backend/src/html/list.rs'],
  [('marker stack', 'parser/src/list_context.rs'), ('item and continuation parsing', 'parser/src/tasks/parse_list.rs')],
  [('open lists', 'stack of markers of the open lists')])

p('C11', 'Delimited blocks pair and contain exactly what is between their delimiters',
  'A delimited block extends to the first line equal to its own opening delimiter at the same nesting, or is reported as never closed; structural blocks nest, verbatim blocks keep their lines exactly and interpret nothing inside. The block style only changes the presentation documented for it, and the content before and after the block is unaffected.',
  ['inputs', 'histories'], 'every sequence of delimiter lines of all kinds (and lengths, where a kind has several), text, blank, comment and markup-like lines, with block styles, attributes and titles',
  'Tests pair one delimiter at a time; pairing is a property of every sequence of delimiters.',
  ['parser/src/tasks/parse_block.rs', 'parser/src/delimiter.rs', 'parser/src/parser.rs', 'backend/src/html/backend.rs'],
  [('current delimiter', 'parser/src/tasks/parse_block.rs parse_delimited_block'), ('verbatim reading', 'parser/src/parser.rs read_lines_until')],
  [('open delimiters', 'stack of open delimited blocks')])

p('C12', 'Footnotes are numbered once, in order, and link both ways',
  'Footnotes are numbered 1, 2, 3, ... in order of first occurrence in the document, wherever they occur (paragraphs, lists, titles, cells, nested blocks); every reference to a named footnote shows the number of its definition; and the note list at the end contains each note exactly once, in order, with the text of its definition. Each mark links to its note and each note links back.',
  ['inputs', 'histories'], 'every sequence of anonymous, named-defining and named-referring footnotes over paragraphs, lists, blocks, sections and table cells, with references before and after definitions',
  'Tests contain a few footnotes in fixed places; numbering is a property of the whole traversal order.',
  ['backend/src/html/backend.rs', 'eval/src/eval.rs', 'dr-html-backend/src/asciidoctor_html.rs', 'parser/src/tasks/parse_inlines/mod.rs'],
  [('footnote collection', 'backend footnotes'), ('footnote macro', 'parser/src/tasks/parse_inlines')],
  [('footnotes', 'definitions so far with their numbers')])

p('C13', 'Callout marks and callout lists match up',
  'In every sequence of verbatim blocks and callout lists, marks in a block refer to items of the next callout list; automatic marks number consecutively from 1 and restart after each list; marks are only recognised at the end of a line (behind an optional line comment) and never lose code text. Every list item without a mark, and out of sequence items, are reported.',
  ['inputs', 'histories'], 'every sequence of listings with explicit, automatic and multiple marks, comment styles, escaped marks and callout lists with explicit or automatic numbers',
  'Tests have single listing-list pairs; matching is a property of the history of blocks and lists.',
  ['parser/src/parse_context.rs', 'parser/src/tasks/parse_list.rs', 'parser/src/tasks/parse_inlines/mod.rs', 'backend/src/html/backend.rs'],
  [('callout register', 'parser/src/parse_context.rs push_callout'), ('callout list checks', 'parser/src/tasks/parse_list.rs')],
  [('callout register', 'marks since the last callout list')])

p('C14', 'Tables place every cell in exactly one grid position',
  'For every table source, cells fill a grid row by row honouring column count, column and row spans and repetition; every complete row covers exactly the declared number of columns, cells never overlap, and no cell text is lost, an incomplete final row included. The delimited (CSV, DSV, TSV) formats give the same grid as the equivalent prefix-separated table, and header and footer rows are those the options select.',
  ['inputs', 'configurations'], 'every sequence of cells with spans, repetitions, styles, line breaks and escaped separators, column specifications, formats and options',
  'Tests render individual tables; grid placement is a function of all span and repetition combinations.',
  ['parser/src/tasks/table/parse_table.rs', 'parser/src/tasks/table/parse_psv_table.rs', 'parser/src/tasks/table/parse_csv_table.rs', 'parser/src/tasks/table/parse_dsv_table.rs', 'parser/src/tasks/table/parse_table_spec.rs', 'backend/src/html/table.rs'],
  [('cell accumulation and spans', 'parser/src/tasks/table'), ('row output', 'backend/src/html/table.rs')],
  [('grid', 'columns taken in the current row by cells above')])

p('C15', 'Evaluation produces properly nested events and well-formed output',
  'For every document, the sequence of events a backend receives is properly nested: each start has its matching end, ends never cross, visits occur only within the document, and the document start and end frame everything. The HTML of both backends is well-formed for every document: all tags balanced and correctly nested, attribute values quoted and escaped, ids unique.',
  ['inputs', 'programs'], 'every document of the other specifications and every composition of block and inline constructs, evaluated by a recording backend and both HTML backends',
  'Snapshot tests check particular outputs; nesting must hold for every tree the parser can produce.',
  ['eval/src/eval.rs', 'backend/src/backend.rs', 'backend/src/html/backend.rs', 'backend/src/html/htmlbuf.rs', 'dr-html-backend/src/asciidoctor_html.rs', 'backend-html5s/src/html5s.rs'],
  [('tree walk', 'eval/src/eval.rs'), ('tag stack', 'backend/src/html')],
  [('open events', 'stack of started and not yet ended constructs')], ['Backend trait calls', 'HTML output'])

p('C16', 'Captions number each kind of block consecutively',
  'Titled figures, tables, examples and (when enabled) listings are captioned with a label and a number that counts blocks of that kind, in document order, consecutively from 1 across sections, blocks, lists and cells; untitled blocks and blocks with a custom or suppressed caption consume no number. Unsetting the caption attribute turns numbering of that kind off from there on without affecting the other kinds.',
  ['histories', 'inputs'], 'every sequence of titled and untitled blocks of all captioned kinds, caption attributes, custom captions and caption switches, at every nesting',
  'Tests have one or two captions; consecutive numbering is a property of histories.',
  ['backend/src/html/backend.rs', 'dr-html-backend/src/asciidoctor_html.rs', 'backend-html5s/src/html5s.rs'],
  [('caption counters', 'backend caption counters')],
  [('caption counters', 'one per kind of block')])

p('C17', 'Inline markup: exact pairing, escaping and text preservation',
  'For every paragraph of words, formatting marks, escapes and special characters, marks format text exactly where they pair by the constrained and unconstrained rules, otherwise they stay literally; the visible text is the source text minus the consumed marks. Special characters are always escaped in output, and nothing inside passthroughs or literal text is interpreted.',
  ['inputs'], 'every short sequence of words, spaces, formatting marks (single and double), backslashes, angle brackets, ampersands, passthroughs and attribute references',
  'Tests use chosen snippets; the pairing rules are about all adjacencies of marks and characters.',
  ['parser/src/tasks/parse_inlines/mod.rs', 'parser/src/tasks/parse_inlines/inline_utils.rs', 'parser/src/lexer/source_lexer.rs', 'parser/src/line.rs', 'parser/src/substitutions.rs'],
  [('inline parser', 'parser/src/tasks/parse_inlines'), ('tokens', 'parser/src/lexer')],
  [('open marks', 'formatting spans being parsed')])

p('C18', 'Every input is processed deterministically without crashing',
  'For every byte sequence of valid text and every option, parsing and conversion terminate without panicking or aborting, produce the same result every time, and do not depend on the line ending style or a missing final line ending. Strict mode fails exactly if the lenient run reports a problem, and then with one of those problems.',
  ['inputs', 'configurations'], 'every document of all specifications plus every sequence of markup fragments (block, inline, directive, table, list and header fragments) cut and joined arbitrarily, with both line endings, with and without final line ending, strict and lenient, both backends',
  'Tests run well-formed samples; absence of crashes and determinism are claims about all inputs.',
  ['parser/src', 'eval/src/eval.rs', 'backend/src/html', 'parser/src/tasks/diagnose_document.rs'],
  [('whole pipeline', 'parser, eval, backends'), ('diagnostic ordering', 'parser/src/tasks/diagnose_document.rs')],
  [('fragment sequence', 'the document so far')])

p('C19', 'Diagnostics name the file and line of the offending source',
  'Every diagnostic names the file the offending text is in and its line in that file, whatever precedes it: includes (nested, selected by lines), conditionals, attribute replacement, continuation lines, table cells and either line ending. The quoted source line and underlined span are those of the reported position.',
  ['inputs', 'histories'], 'every composition of preceding constructs (text, includes, conditionals, blocks, cells, attribute entries) with every kind of offending line at every position',
  'Tests assert single diagnostics in short inputs; the location must be right after any prefix and nesting.',
  ['parser/src/diagnostic.rs', 'parser/src/lexer/root_lexer.rs', 'parser/src/lexer/source_lexer.rs', 'parser/src/tasks/table/parse_table.rs'],
  [('location to line mapping', 'parser/src/lexer/root_lexer.rs'), ('nested parser offsets', 'parser/src/tasks/table/parse_table.rs')],
  [('position', 'file and line of each token')])

p('C20', 'The header yields exactly the stated title, authors, revision and attributes',
  'For every header, the title, the authors with their name parts, initials and addresses, and the revision number, date and remark are those written, are available as the documented attributes at every later point, and attribute entries and comments around them do not disturb them. The header ends at the first blank line or line that cannot belong to it, and whatever follows is body content, unchanged.',
  ['inputs', 'configurations'], 'every header of a title, author line (one to several authors, one to three names, particles, addresses), revision line in every documented form, comments and attribute entries in every order, and job-given overrides',
  'Tests assert a few header samples; the header is a small language whose combinations tests do not cover.',
  ['parser/src/tasks/parse_doc_header.rs', 'parser/src/tasks/parse_author_line.rs', 'parser/src/tasks/parse_revision_line.rs', 'core/src/document_meta.rs', 'ast/src'],
  [('header parsing', 'parser/src/tasks/parse_doc_header.rs'), ('author line', 'parser/src/tasks/parse_author_line.rs'), ('revision line', 'parser/src/tasks/parse_revision_line.rs')],
  [('header fields', 'title, authors, revision, attributes')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
