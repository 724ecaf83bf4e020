def bfs(name, spec, consts, inv, **kw):
    return dict(name=name, spec=spec, consts=consts, inv=inv, mode='bfs', **kw)


def sim(name, spec, consts, inv, num, depth, **kw):
    return dict(name=name, spec=spec, consts=consts, inv=inv, mode='sim', num=num, depth=depth, **kw)


def q(s):
    return '"%s"' % s


def qs(*xs):
    return '{' + ', '.join(q(x) for x in xs) + '}'


PROPS = {}
NOT_APPLICABLE = {}

TRUST = ('Trusts the projection of the HTML to the compared observations, and that behaviours beyond the explored '
         'bounds do not differ in kind; every explored behaviour is executed by the real parser and backends.')


def c01(tier):
    quick = tier == 'quick'
    inv = ['Agree', 'JobWins', 'Inert']
    forms = qs('set1', 'set2', 'on', 'off', 'off2', 'upper', 'cont', 'cont3', 'wset', 'wcont', 'wset2', 'woff', 'uofw')
    carriers = qs('plain', 'example', 'ifndef', 'listing', 'comment', 'ifdef', 'literal', 'text')
    probes = qs('para', 'para2', 'item', 'section', 'title', 'listing', 'raw', 'cell', 'acell', 'escaped', 'upper', 'ifdef', 'ifndef', 'bold', 'dlist', 'verse', 'quote', 'twice', 'cellset', 'capcell')
    base = dict(Kinds=qs('plain', 'default', 'jobonly', 'headeronly', 'doctype'), MaxHdr=1, MaxBody=2, Forms=forms, Carriers=carriers, Probes=probes, Seps=qs('loose', 'tight'))
    return [
        bfs('layers', 'Attributes', dict(base, MaxBody=2 if quick else 3, MaxHdr=1 if quick else 2, Forms=qs('set1', 'set2', 'on', 'off', 'wset'), Carriers=qs('plain'), Probes=qs('para')), inv),
        bfs('forms', 'Attributes', dict(base, MaxBody=1, Carriers=qs('plain'), Probes=qs('para')), inv),
        bfs('places', 'Attributes', dict(base, Forms=qs('set1', 'off', 'wset2'), **(dict(MaxHdr=0, Kinds=qs('plain', 'default')) if quick else {})), inv),
        sim('rich', 'Attributes', dict(base, MaxHdr=3, MaxBody=7), inv, 800 if quick else 60000, 12),
    ]


PROPS['C01'] = dict(level='model_checking', jobs=c01, note='All combinations of attribute class, job setting, header entry and short body histories; random longer histories over all spellings, carriers and reference points; lookup through the layers and the value by history are proved equal in every reachable state. ' + TRUST)


def c02(tier):
    inv = ['Agree', 'Balanced', 'DeadInert']
    jobs = []
    n = 5 if tier == 'quick' else 6
    for m in ['para', 'tight', 'listing', 'loose', 'include', 'cell', 'header']:
        jobs.append(bfs('core-' + m, 'Conditionals', dict(MaxLen=n - (0 if m in ('para',) else 1), Mode=q(m), Rich='FALSE'), inv))
        jobs.append(sim('rich-' + m, 'Conditionals', dict(MaxLen=9, Mode=q(m), Rich='TRUE'), inv, 6 if tier == 'quick' else 1500, 10))
        jobs.append(bfs('rich3-' + m, 'Conditionals', dict(MaxLen=2 if tier == 'quick' else 3, Mode=q(m), Rich='TRUE'), inv))
    jobs.append(bfs('mixed', 'Conditionals', dict(MaxLen=1, Mode=q('mixed'), Rich='TRUE'), inv, next='NextMixed'))
    jobs.append(bfs('ifeval', 'Ifeval', dict(Wide='TRUE'), ['Complement', 'Flip', 'Split']))
    return jobs


PROPS['C02'] = dict(level='model_checking', jobs=c02, note='Exhaustive over the core directive alphabet to a bounded length in 8 placements, random over the full alphabet to length 9; the operational and declarative meanings are proved equal by TLC in every reachable state. ' + TRUST)


def c03(tier):
    inv = ['Agree', 'DepthOK', 'MainKept']
    quick = tier == 'quick'
    modes = qs('para', 'loose', 'listing', 'cell', 'list', 'dlist', 'sidebar', 'quote', 'end')
    base = dict(NFiles=3, MaxItems=2, Depths='{99}', Modes=modes, SubMain='FALSE', Rich='FALSE', Blocks='FALSE')
    return [
        bfs('core', 'Includes', dict(base, Depths='{0, 1, 2, 3}'), inv, cap=30000 if quick else None),
        bfs('core-submain', 'Includes', dict(base, Depths='{2}', SubMain='TRUE', Modes=qs('para')), inv, cap=3000 if quick else None),
        sim('rich', 'Includes', dict(base, NFiles=5, Depths='{0, 1, 2, 3}', MaxItems=3, Rich='TRUE'), inv, 1500 if quick else 60000, 200, constraint='Small'),
        sim('rich-submain', 'Includes', dict(base, NFiles=5, Depths='{2, 3}', MaxItems=3, Rich='TRUE', SubMain='TRUE', Modes=qs('para')), inv, 400 if quick else 20000, 200, constraint='Small'),
        sim('blocks', 'Includes', dict(base, NFiles=4, Modes=qs('flat'), MaxItems=6, Blocks='TRUE'), inv, 3000 if quick else 60000, 200),
    ]


PROPS['C03'] = dict(level='model_checking', jobs=c03, note='All include graphs over three files of up to two lines, every depth limit 0..3, ten placements; random five-file graphs with all directive forms; flattening equivalence for block-level lines. ' + TRUST)


def c04(tier):
    quick = tier == 'quick'
    inv = ['Agree', 'Partition']
    base = dict(MaxLines=6, MaxSel=1, Tags=qs('a', 'b'), SelSet=qs('a', '!a', 'b', '!b', '*', '!*', '**', '!**'), Nested='TRUE', Blanks='FALSE', Forms=qs('slash', 'hash', 'xml', 'bare'))
    return [
        bfs('one', 'TagSelect', base, inv),
        bfs('two', 'TagSelect', dict(base, MaxSel=2, Forms=qs('slash', 'bare')), inv, cap=20000 if quick else None),
        bfs('three', 'TagSelect', dict(base, MaxSel=3, MaxLines=5, Forms=qs('bare')), inv),
        bfs('blanks', 'TagSelect', dict(base, MaxLines=5, MaxSel=1, Blanks='TRUE', Forms=qs('slash', 'hash')), inv),
        bfs('lines', 'LineSelect', dict(MaxLines=4, MaxSel=2, Hi=5, Indents='{0, 99}', NewIndents='{99}', Encs=qs('utf8')), ['Ordered', 'Relative'], cap=20000 if quick else None),
        bfs('lines-indent', 'LineSelect', dict(MaxLines=4, MaxSel=1, Hi=3, Indents='{0, 2, 3, 99}', NewIndents='{0, 1, 2, 4}', Encs=qs('utf8')), ['Ordered', 'Relative'], cap=20000 if quick else None),
        bfs('lines-enc', 'LineSelect', dict(MaxLines=3, MaxSel=1, Hi=3, Indents='{0, 2, 99}', NewIndents='{99}', Encs=qs('bom', 'utf16le', 'utf16be')), ['Ordered', 'Relative']),
        bfs('mismatch', 'TagSelect', dict(base, Nested='FALSE', MaxLines=5, Forms=qs('hash')), inv),
    ]


PROPS['C04'] = dict(level='model_checking', jobs=c04, note='' + TRUST)


def c07(tier):
    quick = tier == 'quick'
    inv = ['Nested', 'Lands', 'Path']
    base = dict(MaxLen=5, MaxMarks=6, Doctypes=qs('article'), Titled='{FALSE}', Acts=qs('heading', 'para'), Rich='FALSE', TopZero='FALSE')
    every = qs('heading', 'seven', 'para', 'inside', 'discrete', 'offset', 'include')
    return [
        bfs('outline', 'Sections', dict(base, MaxLen=4 if quick else 5), inv),
        bfs('offsets', 'Sections', dict(base, MaxLen=3 if quick else 4, MaxMarks=3, Acts=qs('heading', 'offset', 'job')), inv),
        bfs('book', 'Sections', dict(base, MaxMarks=3, Doctypes=qs('book'), Titled='{TRUE, FALSE}'), inv),
        bfs('spelling', 'Sections', dict(base, MaxLen=2, Rich='TRUE', Acts=every, Titled='{TRUE, FALSE}', MaxMarks=3), inv),
        bfs('zero', 'Sections', dict(base, MaxLen=4, MaxMarks=3, TopZero='TRUE'), inv),
        sim('rich', 'Sections', dict(base, MaxLen=9, Doctypes=qs('article', 'book'), Titled='{TRUE, FALSE}', Rich='TRUE', Acts=every), inv, 40 if quick else 6000, 10),
    ]


PROPS['C07'] = dict(level='model_checking', jobs=c07, note='All heading sequences of all levels to a bounded length, all offset histories over three levels, multi-part books; random longer documents over every spelling, container, offset form and nested include. ' + TRUST)


def c10(tier):
    quick = tier == 'quick'
    inv = ['Distinct', 'InOrder', 'Rule']
    base = dict(MaxLen=4, Markers=qs('*', '**', '-', '.', '1.'), Acts=qs('item', 'blank'), Indents='{0}', Wraps=qs('none'))
    every = qs('item', 'term', 'attr', 'wrap', 'attach', 'attachlist', 'blank', 'sep')
    marks = qs('*', '**', '***', '-', '.', '..', '1.', '::', ':::', ';;')
    return [
        bfs('nest', 'Lists', dict(base, MaxLen=4 if quick else 6), inv),
        bfs('dlists', 'Lists', dict(base, MaxLen=3 if quick else 4, Markers=qs('*', '::', ';;', ':::'), Acts=qs('item', 'term', 'blank')), inv),
        bfs('attach', 'Lists', dict(base, MaxLen=4 if quick else 5, Markers=qs('*', '.', '::'), Acts=qs('item', 'attach', 'attachlist', 'blank')), inv),
        bfs('sep', 'Lists', dict(base, MaxLen=4 if quick else 5, Markers=qs('*', '.', '::'), Acts=qs('item', 'attr', 'wrap', 'blank', 'sep')), inv),
        bfs('wraps', 'Lists', dict(base, MaxLen=3, Markers=qs('*', '.', '::'), Acts=every, Indents='{0, 2}', Wraps=qs('example', 'cell', 'sect')), inv),
        sim('rich', 'Lists', dict(base, MaxLen=9, Markers=marks, Acts=every, Indents='{0, 2}', Wraps=qs('none', 'example', 'cell', 'sect')), inv, 30 if quick else 1200, 10),
    ]


PROPS['C10'] = dict(level='model_checking', jobs=c10, note='All item sequences over five markers to a bounded length, all sequences of items, continuations, attached blocks, blank lines and separators over three markers; random longer documents over ten markers and every form. ' + TRUST)


def c11(tier):
    quick = tier == 'quick'
    inv = ['FirstMatch', 'Laminar', 'VerbLeaf', 'Accounted']
    delims = ['----', '```', '....', '++++', '////', '====', '======', '****', '____', '--']
    styles = ['', 'NOTE', 'WARNING', 'listing', 'literal', 'source', 'quote', 'verse', 'sidebar', 'example', 'abstract', 'comment', 'pass']
    texts = ['word', 'item', 'head', 'entry', 'note', 'attr', 'dot', 'in', 'plus', 'table', 'long', 'short', 'two', 'macro', 'dist', 'tail', 'ind', 'cont']
    base = dict(MaxLen=4, Delims=qs(*delims), Styles='{}', Texts=qs('word'), Wraps=qs('none'), Titles='{""}')
    wraps = qs('none', 'cell', 'example')
    return [
        bfs('pairs', 'Blocks', dict(base, MaxLen=4 if quick else 5), inv, cap=15000 if quick else None),
        bfs('deep', 'Blocks', dict(base, MaxLen=6 if quick else 8, Delims=qs('----', '====', '******' if False else '****', '--')), inv),
        bfs('content', 'Blocks', dict(base, MaxLen=4, Delims=qs('----', '....', '++++', '////', '```'), Texts=qs(*texts)), inv, cap=15000 if quick else None),
        bfs('styles', 'Blocks', dict(base, MaxLen=4, Delims=qs('----', '....', '====', '--', '____'), Styles=qs(*styles), Texts=qs('word', 'item'), Titles='{"", "T"}'), inv, cap=15000 if quick else None),
        sim('rich', 'Blocks', dict(base, MaxLen=12, Styles=qs(*styles), Texts=qs(*texts), Wraps=wraps, Titles='{"", "T"}'), inv, 60 if quick else 6000, 13),
    ]


PROPS['C11'] = dict(level='model_checking', jobs=c11, note='All sequences of the ten delimiter lines, text and blank lines to a bounded length, markup-like lines in every verbatim block, every style on every kind of block; random longer documents, also in table cells and inside a block. ' + TRUST)


def c08(tier):
    quick = tier == 'quick'
    inv = ['Unique', 'Least']
    titles = qs('A', 'a!', '*A*', '(a)', 'A b', 'A-B', 'a.b', 'A & b', 'a - `b`', 'A &amp; b', 'A 2', 'a,b', 'a_b', '!', 'A_3')
    places = qs('para', 'item', 'cell', 'acell', 'title', 'dt', 'strong', 'quote', 'note', 'inc', 'sect', 'line')
    forms = qs('short', 'shorttext', 'hash', 'macro', 'macrotext', 'emptytext')
    idforms = qs('hash', 'anchor', 'anchortext', 'named', 'reftext', 'two')
    kinds = qs('para', 'list', 'listing', 'quote', 'open', 'dlist', 'sidebar')
    base = dict(MaxLen=3, Titles=qs('A'), Explicit=qs('x'), Targets=qs('x', '_a', '_a_2'), Acts=qs('sect'), Forms=qs('short'), Places=qs('para'), IdForms=qs('hash'), Kinds=qs('para'))
    return [
        bfs('titles', 'Ids', dict(base, MaxLen=3 if quick else 4, Titles=titles, Acts=qs('sect', 'discrete', 'prefix')), inv, cap=12000 if quick else None),
        bfs('explicit', 'Ids', dict(base, MaxLen=4 if quick else 5, Explicit=qs('_a', '_a_2'), Titles=qs('A', 'A 2'), Acts=qs('sect', 'discrete', 'explsect', 'block', 'inline', 'dup')), inv, cap=12000 if quick else None),
        bfs('refs', 'Ids', dict(base, MaxLen=2, Explicit=qs('x', '_y', 'z-1'), Targets=qs('x', '_y', 'z-1', '_a', 'nope'), Acts=qs('sect', 'explsect', 'block', 'inline', 'ref'), Forms=forms, Places=places, IdForms=idforms, Kinds=kinds), inv, cap=12000 if quick else None),
        bfs('places', 'Ids', dict(base, MaxLen=3, Targets=qs('x', '_a'), Acts=qs('sect', 'inline', 'ref', 'dup'), Places=places, Forms=qs('short', 'shorttext')), inv, cap=8000 if quick else None),
        sim('rich', 'Ids', dict(base, MaxLen=10, Titles=titles, Explicit=qs('x', '_a', '_a_2', '_a_b', 'a', 'z-1'), Targets=qs('x', '_a', '_a_2', '_a_b', 'a', 'z-1', 'nope'), Acts=qs('sect', 'discrete', 'explsect', 'block', 'inline', 'ref', 'prefix', 'dup'), Forms=forms, Places=places, IdForms=idforms, Kinds=kinds), inv, 8 if quick else 1000, 11),
    ]


PROPS['C08'] = dict(level='model_checking', jobs=c08, note='All short sequences of headings over titles that collide in every way, of explicit ids against automatic ones, and of every form of anchor and reference in every place, forward and backward; random longer documents mixing all. ' + TRUST)


def c09(tier):
    quick = tier == 'quick'
    inv = ['Position', 'Distinct', 'Consecutive']
    forms = qs('plain', 'bold', 'code', 'anchor', 'explicit', 'link', 'amp', 'foot')
    base = dict(MaxLen=4, Doctypes=qs('article'), Acts=qs('para'), Specials='{}', Forms=qs('plain'), Heads=qs('on'), Depths='{9}', Tocs=qs('auto'), TocDepths='{9}', Signs=qs('none'))
    art = qs('appendix', 'glossary', 'bibliography', 'index', 'abstract')
    book = qs('appendix', 'glossary', 'colophon', 'dedication', 'preface', 'acknowledgments', 'index')
    return [
        bfs('outlines', 'Numbering', dict(base, MaxLen=6 if quick else 7, Acts='{}', Specials=qs('appendix'), TocDepths='{9, 3}', Depths='{9, 2}'), inv, cap=15000 if quick else None),
        bfs('skips', 'Numbering', dict(base, MaxLen=5 if quick else 6, Acts=qs('skip'), Specials=qs('appendix'), TocDepths='{9, 4}', Depths='{9, 5}'), inv, cap=15000 if quick else None),
        bfs('special', 'Numbering', dict(base, MaxLen=3 if quick else 4, Specials=art, Heads=qs('off', 'on', 'all'), Acts=qs('switch')), inv, cap=12000 if quick else None),
        bfs('book', 'Numbering', dict(base, MaxLen=4 if quick else 5, Doctypes=qs('book'), Specials=qs('appendix', 'preface', 'glossary'), Acts=qs('part', 'zero'), Signs=qs('none', 'all', 'bare')), inv, cap=12000 if quick else None),
        bfs('depths', 'Numbering', dict(base, MaxLen=4 if quick else 5, Acts=qs('depth', 'switch'), Depths='{0, 1, 2, 5, 9}', TocDepths='{1, 2, 3, 5, 9}', Heads=qs('off', 'on')), inv, cap=12000 if quick else None),
        bfs('places', 'Numbering', dict(base, MaxLen=4, Acts=qs('para', 'macro', 'discrete', 'block'), Tocs=qs('none', 'auto', 'macro', 'preamble')), inv, cap=10000 if quick else None),
        bfs('titles', 'Numbering', dict(base, MaxLen=2, Forms=forms, Acts=qs('macro'), Specials=art, Tocs=qs('none', 'auto', 'macro'), Signs=qs('none', 'all', 'bare')), inv, cap=10000 if quick else None),
        sim('rich-article', 'Numbering', dict(base, MaxLen=14, Forms=forms, Specials=art, Heads=qs('off', 'on', 'all'), Depths='{1, 2, 5, 9}', Tocs=qs('auto', 'macro', 'preamble'), TocDepths='{1, 3, 5, 9}', Signs=qs('none', 'all', 'bare'), Acts=qs('skip', 'para', 'macro', 'discrete', 'block', 'depth', 'switch')), inv, 20 if quick else 2000, 15),
        sim('rich-book', 'Numbering', dict(base, MaxLen=14, Doctypes=qs('book'), Forms=forms, Specials=book, Heads=qs('off', 'on', 'all'), Depths='{1, 2, 5, 9}', Tocs=qs('auto', 'macro', 'preamble'), TocDepths='{1, 3, 5, 9}', Signs=qs('none', 'all', 'bare'), Acts=qs('part', 'zero', 'para', 'macro', 'discrete', 'block', 'depth', 'switch')), inv, 20 if quick else 2000, 15),
    ]


PROPS['C09'] = dict(level='model_checking', jobs=c09, note='All outlines over nested sections and appendices, of special sections, parts and chapters, under every combination of switch, depth, contents position and depth, with switches changed on the way; random long articles and books. ' + TRUST)


def c14(tier):
    quick = tier == 'quick'
    inv = ['Apart', 'Full', 'Agree', 'InGrid']
    contents = qs('w', 'esc', 'two', 'lines', 'empty', 'colon', 'comma', 'code', 'attr', 'bold', 'digits', 'pad', 'comment', 'list', 'below', 'back')
    values = qs('w', 'empty', 'quoted', 'quotes', 'qlines', 'qtwo', 'bold', 'esc', 'comma', 'qsep', 'attr')
    delimited = qs('csv', 'csvattr', 'dsv', 'dsvattr', 'tsv', 'csvsep', 'csvbar', 'dsvbar')
    spans = qs('', '2+', '3+', '.2+', '.3+', '2.2+', '2.3+', '3.2+')
    aligns = qs('', '^', '.>', '>.^', '<.>', '<')
    styles = qs('none', 'a', 'd', 'e', 'h', 'm', 's', 'l')
    opts = qs('', 'header', 'footer', 'both', 'noheader', 'implicit')
    base = dict(MaxLen=4, Formats=qs('psv'), Cols=qs('3'), Opts=qs(''), Dups='{1}', Spans=qs(''), Styles=qs('none'), Aligns=qs(''), Contents=qs('w'), Gaps=qs('new'), Lead='{FALSE}')
    return [
        bfs('spans', 'Tables', dict(base, MaxLen=6 if quick else 8, Cols=qs('3', '2'), Spans=spans), inv, cap=12000 if quick else None),
        bfs('repeats', 'Tables', dict(base, MaxLen=3 if quick else 4, Cols=qs('3', '2*', 'imp3'), Dups='{1, 2, 3, 5}', Spans=qs('', '2+', '.2+'), Gaps=qs('same', 'new')), inv, cap=12000 if quick else None),
        bfs('options', 'Tables', dict(base, MaxLen=5, Formats=qs('psv', 'sep', 'nested'), Cols=qs('2', 'imp2', '1,2', 'imp1'), Opts=opts, Gaps=qs('same', 'new', 'blank'), Lead='{TRUE, FALSE}'), inv, cap=12000 if quick else None),
        bfs('columns', 'Tables', dict(base, MaxLen=2 if quick else 3, Formats=qs('psv', 'nested'), Cols=qs('1,e', 'h,m,s', 'l,a', '2*^.>e', '>,.^1s', 'e,2*,~', 'a,a'), Opts=qs('', 'header', 'implicit'), Styles=styles, Contents=qs('w', 'list'), Dups='{1, 2}', Gaps=qs('same', 'new')), inv, cap=12000 if quick else None),
        bfs('contents', 'Tables', dict(base, MaxLen=3, Formats=qs('psv', 'sep', 'nested'), Cols=qs('2', 'imp2'), Contents=contents, Styles=qs('none', 'a'), Gaps=qs('same', 'new')), inv, cap=12000 if quick else None),
        bfs('specs', 'Tables', dict(base, MaxLen=2, Formats=qs('psv', 'sep'), Cols=qs('2') if quick else qs('2', 'imp2'), Spans=qs('', '2+', '.2+', '2.2+'), Aligns=aligns, Styles=styles, Contents=qs('w', 'list'), Dups='{1, 2}', Gaps=qs('same')), inv, cap=12000 if quick else None),
        bfs('delimited', 'Tables', dict(base, MaxLen=4 if quick else 5, Formats=delimited, Cols=qs('2', 'imp2'), Opts=qs('', 'header', 'implicit'), Contents=values), inv, cap=12000 if quick else None),
        sim('rich', 'Tables', dict(base, MaxLen=14, Formats=qs('psv', 'sep', 'nested'), Cols=qs('2', '3*', '4*', 'imp2', 'imp3', 'imp4', '1', 'imp1'), Opts=opts, Dups='{1, 2, 3}', Spans=spans, Styles=styles, Aligns=qs('', '.>', '^'), Contents=contents, Gaps=qs('same', 'new', 'blank'), Lead='{TRUE, FALSE}'), inv, 50 if quick else 1200, 15, next='NextSome'),
        sim('rich-delimited', 'Tables', dict(base, MaxLen=20, Formats=delimited, Cols=qs('2', '3*', '4*', 'imp2', 'imp3', '1', 'imp1', 'h,m,s', '2*^.>e'), Opts=opts, Contents=values, Gaps=qs('new', 'blank')), inv, 50 if quick else 3000, 21),
    ]
PROPS['C14'] = dict(level='model_checking', jobs=c14, note='All short sequences of cells with spans and repetitions over small grids, every cell specification, every content, options and column specifications; the delimited formats with quoted, escaped and empty values; random larger tables. ' + TRUST)



def c16(tier):
    quick = tier == 'quick'
    inv = ['Consecutive', 'Apart']
    kinds = qs('image', 'table', 'csv', 'example', 'exstyle', 'listing', 'source', 'fence', 'lststyle', 'srcstyle', 'literal', 'sidebar', 'quote', 'verse', 'para', 'list', 'video', 'audio')
    core = qs('image', 'table', 'example', 'listing')
    conts = qs('example', 'sidebar', 'quote', 'open', 'item', 'cell', 'section')
    heads = qs('none', 'title', 'listing', 'nofig', 'tabelle')
    base = dict(MaxLen=4, Kinds=core, Containers='{}', Titles=qs('none', 'dot', 'attr'), Captions=qs('none', 'custom', 'empty'), Entries='{}', Heads=qs('listing'), MaxDepth=2)
    entries = qs('figure', 'table', 'example', 'listing')
    return [
        bfs('kinds', 'Captions', dict(base, MaxLen=2, Kinds=kinds, Heads=heads), inv, cap=12000),
        bfs('sequences', 'Captions', dict(base, MaxLen=4 if quick else 5, Titles=qs('none', 'dot'), Captions=qs('none', 'custom')), inv, cap=12000 if quick else 60000),
        bfs('nesting', 'Captions', dict(base, MaxLen=5 if quick else 6, Kinds=qs('image', 'example'), Containers=conts, Titles=qs('none', 'dot'), Captions=qs('none'), MaxDepth=3), inv, cap=12000 if quick else 60000),
        bfs('entries', 'Captions', dict(base, MaxLen=4 if quick else 5, Kinds=core, Titles=qs('dot'), Captions=qs('none'), Entries=entries, Heads=heads), inv, cap=12000 if quick else 60000),
        bfs('admonitions', 'Captions', dict(base, MaxLen=4, Kinds=qs('adm', 'admp', 'image'), Titles=qs('none', 'dot'), Captions=qs('none'), Containers=qs('item', 'cell', 'example'), Entries=qs('adm', 'figure'), Heads=qs('listing')), inv, cap=8000),
        sim('rich', 'Captions', dict(base, MaxLen=24, Kinds=kinds, Containers=conts, Entries=entries, Heads=heads, MaxDepth=4), inv, 120 if quick else 3000, 25, next='NextSome'),
    ]


PROPS['C16'] = dict(level='model_checking', jobs=c16, note='All short sequences of titled and untitled blocks of every kind, with captions, nesting and attribute entries between them; random longer documents. ' + TRUST)


def c12(tier):
    quick = tier == 'quick'
    inv = ['InOrder', 'OneNote', 'Shown']
    simple = ['para', 'bold', 'item', 'subitem', 'term', 'dd', 'adm', 'verse', 'quote', 'cell', 'hcell', 'twocells', 'attached', 'callout', 'second', 'literal', 'listing', 'discrete', 'csv', 'hdlist', 'qanda', 'check', 'passthru', 'para2']
    titled = ['t-' + x for x in 'example listing image table sidebar para list dlist quote verse adm open literal collapsible'.split()]
    every = qs(*simple, *titled, 'section', 'xref')
    marks = qs('def', 'defa', 'defb', 'refa', 'refb', 'inert')
    contents = qs('plain', 'bold', 'lt', 'esc', 'attr', 'open', 'code', 'uni')
    conts = qs('example', 'sidebar', 'quote', 'open', 'cell')
    base = dict(MaxLen=4, Places=qs('para'), Marks=marks, Contents=qs('plain'), Containers='{}', MaxDepth=2, Tocs=qs('none'), MaxMarks=1)
    return [
        bfs('history', 'Footnotes', dict(base, MaxLen=3 if quick else 4, MaxMarks=2 if quick else 2, Marks=qs('def', 'defa', 'defb', 'refa', 'refb')), inv, cap=12000 if quick else 80000),
        bfs('places', 'Footnotes', dict(base, MaxLen=3, Places=every, Marks=qs('def', 'defa', 'refa')), inv, cap=14000 if quick else 120000),
        bfs('contents', 'Footnotes', dict(base, MaxLen=2, Places=every, Contents=contents, Marks=qs('def', 'defa', 'inert')), inv, cap=12000 if quick else None),
        bfs('titles', 'Footnotes', dict(base, MaxLen=4, Places=qs('section', 'xref', 'para', 't-example'), Marks=qs('def', 'defa', 'refa'), Tocs=qs('none', 'toc', 'macro')), inv, cap=12000 if quick else 80000),
        bfs('nesting', 'Footnotes', dict(base, MaxLen=5 if quick else 6, Places=qs('para', 't-example', 'cell'), Marks=qs('def', 'defa', 'refa') if not quick else qs('defa', 'refa'), Containers=conts, MaxDepth=3), inv, cap=12000 if quick else 100000),
        sim('rich', 'Footnotes', dict(base, MaxLen=24, Places=every, Contents=contents, Containers=conts, MaxDepth=4, Tocs=qs('none', 'toc', 'macro'), MaxMarks=3), inv, 100 if quick else 2500, 25, next='NextSome'),
    ]


PROPS['C12'] = dict(level='model_checking', jobs=c12, note='All short histories of anonymous, naming and referring footnotes, in every place and with every kind of content, in nested containers and in titles shown again by a table of contents or a reference; random longer documents. ' + TRUST)


def c13(tier):
    quick = tier == 'quick'
    inv = ['Counted', 'Fresh', 'Reported']
    blocks = qs('listing', 'source', 'literal', 'fence', 'lstpara', 'litpara', 'indent', 'quotes', 'attrs', 'erlang', 'none', 'para')
    codes = qs('word', 'bare', 'lt', 'inner', 'str', 'slashes', 'empty', 'glued', 'back')
    guards = qs('none', '//', '#', ';;', '--', '%', '//~', 'xml')
    marks = qs('1', '2', 'auto', 'esc', 'esc-auto')
    items = qs('1', '2', 'auto')
    base = dict(MaxLen=6, Blocks=qs('listing'), Codes=qs('word'), Guards=qs('none'), Marks=qs('1', 'auto'), Items=items, Containers='{}', MaxDepth=2, Icons=qs('none'), MaxMarks=1, MaxLines=3)
    return [
        bfs('lines', 'Callouts', dict(base, MaxLen=3, Blocks=blocks, Codes=codes, Guards=guards, Marks=qs('1', '12', 'auto', 'esc', 'esc-auto'), MaxMarks=2, MaxLines=1, Icons=qs('none', 'font')), inv, cap=14000 if quick else None),
        bfs('history', 'Callouts', dict(base, MaxLen=9 if quick else 11, Marks=qs('1', '2', 'auto'), MaxMarks=1), inv, cap=14000 if quick else 100000),
        bfs('matching', 'Callouts', dict(base, MaxLen=7 if quick else 8, Marks=qs('1', '2', '12', 'auto'), MaxMarks=2, Items=qs('1', '2', '12', 'auto'), Icons=qs('none', 'font')), inv, cap=14000 if quick else 100000),
        bfs('nesting', 'Callouts', dict(base, MaxLen=9 if quick else 11, Marks=qs('auto'), Items=qs('auto'), Containers=qs('example', 'cell', 'item'), MaxDepth=3), inv, cap=14000 if quick else 100000),
        sim('rich', 'Callouts', dict(base, MaxLen=40, Blocks=blocks, Codes=codes, Guards=guards, Marks=marks, Containers=qs('example', 'cell', 'item', 'sidebar'), MaxDepth=3, MaxMarks=3, Icons=qs('none', 'font')), inv, 80 if quick else 2000, 41, next='NextSome'),
    ]


PROPS['C13'] = dict(level='model_checking', jobs=c13, note='All short histories of marks and callout lists; every kind of verbatim block, code, comment and escape; marks and lists in nested blocks and cells; random longer documents. ' + TRUST)


HOSTS = ['para', 'title', 'section', 'doctitle', 'item', 'term', 'desc', 'attr', 'blockattr', 'quoteattr', 'xref', 'link', 'linktarget', 'footnote', 'strong', 'span', 'cell', 'acell', 'verse', 'listing', 'image', 'imagealt', 'include', 'menu', 'kbd', 'index', 'admon', 'mdquote', 'author', 'revision', 'ifeval', 'ifdef', 'cols', 'pass', 'mono', 'csv', 'subs', 'mailto', 'biblio', 'anchor', 'lines', 'tags', 'callout']
LINES = ['text', 'fence', 'list', 'meta', 'head', 'attr', 'dir', 'macro', 'table', 'long', 'inline']
PIECES = ['marks', 'words', 'brackets', 'specials', 'macros']


def fragments(tier, expect, variants):
    quick = tier == 'quick'
    inv = ['Composed']
    base = dict(Mode=q('lines'), MaxLen=2, Groups=qs(*LINES), Hosts=qs('para'), Attrs=qs('none'), Expect=qs(*expect), Variants=qs(*variants), Counts='{1}')
    every = qs('none', 'book', 'a', 'toc')
    return [
        bfs('pairs', 'Fragments', base, inv, cap=12000 if quick else None),
        bfs('attrs', 'Fragments', dict(base, MaxLen=1, Attrs=every), inv),
        bfs('pieces', 'Fragments', dict(base, Mode=q('pieces'), MaxLen=1, Groups=qs(*PIECES), Hosts=qs(*HOSTS), Attrs=qs('none', 'a')), inv),
        bfs('piecepairs', 'Fragments', dict(base, Mode=q('pieces'), MaxLen=2, Groups=qs(*PIECES), Hosts=qs('para', 'cell', 'blockattr')), inv, cap=12000 if quick else None),
        bfs('styled', 'Fragments', dict(base, Mode=q('styled'), MaxLen=1, Hosts=qs('para', 'item', 'acell', 'section', 'open') if not quick else qs('para', 'item', 'acell')), inv, cap=12000 if quick else None),
        bfs('repeats', 'Fragments', dict(base, Mode=q('repeats'), MaxLen=1, Groups=qs(*PIECES), Hosts=qs('para', 'section', 'cell', 'listing', 'blockattr', 'item') if quick else qs(*HOSTS), Counts='{300}' if quick else '{256, 600}'), inv),
        bfs('replines', 'Fragments', dict(base, Mode=q('replines'), MaxLen=1, Counts='{260}'), inv),
        sim('longlines', 'Fragments', dict(base, Mode=q('lines'), MaxLen=30, Attrs=every), inv, 700 if quick else 4000, 31, next='NextSome'),
        sim('longpieces', 'Fragments', dict(base, Mode=q('pieces'), MaxLen=12, Groups=qs(*PIECES), Hosts=qs(*HOSTS), Attrs=every), inv, 900 if quick else 4000, 13, next='NextSome'),
        sim('both', 'Fragments', dict(base, Mode=q('both'), MaxLen=40, Groups=qs(*LINES, *PIECES), Attrs=every), inv, 400 if quick else 4000, 41, next='NextSome'),
    ]


PROPS['C18'] = dict(level='model_checking', jobs=lambda tier: fragments(tier, ['robust'], ['html5s', 'full']), note='All pairs of lines and pieces of markup, random longer compositions in 43 kinds of places, each processed again, with other line endings, and strictly. ' + TRUST)


EVENTS = ['document', 'body', 'header', 'content', 'footer']


def events(tier):
    """the machine itself, over several groups of constructs"""
    base = dict(MaxLen=11 if tier == 'quick' else 13, MaxDepth=9)
    inv = ['Nested', 'Framed', 'Counted']
    groups = dict(
        sections=['section', 'section_heading', 'inline_text', 'preamble', 'book_part', 'book_part_title', 'meta_title', 'paragraph_block', 'simple_block_content'],
        lists=['ordered_list', 'list_item_principal', 'list_item_blocks', 'description_list', 'description_list_term', 'description_list_description', 'thematic_break', 'meta_title'],
        tables=['table', 'table_section', 'table_row', 'table_cell', 'cell_paragraph', 'cell_document', 'inline_text', 'toc', 'toc_level', 'toc_node', 'toc_content'],
        quotes=['quote_block', 'simple_block_content', 'compound_block_content', 'quote_attribution', 'quote_cite', 'quoted_paragraph', 'inline_bold', 'inline_text', 'xref', 'xref_text', 'missing_xref'],
    )
    return [dict(bfs('machine-' + k, 'Events', dict(base, Kinds=qs(*EVENTS, *v)), inv), emits=False) for k, v in groups.items()]


def everywhere(tier):
    """documents of the other specifications, only for the events and the form of the output"""
    jobs = []
    for pid in ('C07', 'C08', 'C09', 'C10', 'C12', 'C13', 'C14', 'C16'):
        for j in PROPS[pid]['jobs']('quick'):
            jobs.append(dict(j, name=f'{pid}-{j["name"]}', cap=400 if tier == 'quick' else 6000, expect={'wf': 'ok'}, also=['html5s']))
    return jobs


PROPS['C15'] = dict(level='model_checking', traces=True,
    jobs=lambda tier: events(tier) + fragments(tier, ['wf'], ['html5s', 'full']) + (everywhere(tier) if tier != 'quick' else []),
    note='A stack machine of the events a backend may get, checked by itself and against the recorded events of all documents; the HTML of both backends is parsed strictly. ' + TRUST)


def c05(tier):
    quick = tier == 'quick'
    inv = ['Sealed', 'Local', 'Narrow']
    dirs = qs('rel', 'up', 'abs', 'ref', 'uri', 'uriref', 'http', 'nest')
    pics = qs('svg', 'img', 'inlimg', 'inlsvg', 'uriimg', 'urisvg', 'refimg', 'refsvg', 'adm', 'dataimg')
    places = qs('para', 'alone', 'listing', 'literal', 'item', 'cell', 'example', 'quote', 'dd', 'attached', 'if', 'section')
    entries = qs('allow', 'unallow', 'depth', 'docdir', 'docfile', 'maxval', 'data', 'undata', 'diruri', 'dirsub', 'mode', 'level', 'info', 'infouri')
    base = dict(MaxLen=2, Modes=qs('unsafe', 'safe', 'server', 'secure'), Uris=qs('no', 'yes', 'mod'), Datas=qs('-', 'ro', 'off', 'mod'), Accesses=dirs, Places=places, Entries=entries)
    return [
        bfs('directives', 'Safe', dict(base, Datas=qs('-'), Entries=qs('allow', 'depth', 'mode')), inv, cap=20000 if quick else None),
        bfs('pictures', 'Safe', dict(base, Accesses=pics, Places=qs('alone', 'cell', 'attached'), Entries=qs('allow', 'data', 'undata', 'diruri', 'dirsub')), inv, cap=20000 if quick else None),
        bfs('docinfo', 'Safe', dict(base, MaxLen=3, Datas=qs('-'), Accesses=qs('rel'), Places=qs('para'), Entries=qs('info', 'infouri', 'allow', 'level')), inv),
        sim('mixed', 'Safe', dict(base, MaxLen=8, Accesses=dirs[:-1] + ', ' + pics[1:]), inv, 40 if quick else 2000, 12, cap=20000 if quick else None),
    ]


PROPS['C05'] = dict(level='model_checking', jobs=c05, note='Every access at every place in every mode and job setting with every pair of entries; random longer documents. Requests are those the real parser makes to its resolver. ' + TRUST)


def c20(tier):
    quick = tier == 'quick'
    inv = ['Disjoint', 'Derived', 'Ordered']
    base = dict(MaxLen=4, Jobs=qs('none'), Titles=qs('plain'), Firsts=qs('Ann'), Middles=qs('-'), Lasts=qs('Lee'), Mails=qs('', 'a@b.c'),
                Revs=qs('vdr'), Extras=qs('line', 'k'), Ends=qs('blank', 'direct'), Bodies=qs('para', 'item'))
    allx = qs('blank', 'line', 'block', 'k', 'unk', 'cont', 'author', 'author1', 'email', 'revnumber', 'revdate')
    alltitles = qs('plain', 'hash', 'amp', 'colon', 'bold', 'ref')
    allrevs = qs('v', 'v1', 'vd', 'nd', 'vdr', 'nr', 'LPR', 'ndr')
    firsts, middles, lasts = qs('Ann', 'Mary_Sue', 'Zoe', 'Jean-Luc', 'low', 'Dr.'), qs('-', 'L.', 'Al_B', 'Cy Di', 'de la'), qs('-', 'Lee', 'van_Dam', 'Smith-Jones', 'D.E')
    bodies = qs('para', 'rev', 'item', 'listing', 'section', 'names', 'attrs', 'title')
    return [
        bfs('shape', 'Header', dict(base, MaxLen=4 if quick else 5, Jobs=qs('none', 'rev'), Extras=allx, Titles=qs('plain', 'hash')), inv, cap=20000 if quick else None),
        bfs('authors', 'Header', dict(base, MaxLen=2, Firsts=firsts, Middles=middles, Lasts=lasts, Extras=qs(), Bodies=qs('para'), Ends=qs('blank')), inv, cap=20000 if quick else None),
        bfs('ends', 'Header', dict(base, MaxLen=4, Titles=alltitles, Revs=allrevs, Extras=qs('line', 'k'), Bodies=bodies), inv, cap=20000 if quick else None),
        sim('mixed', 'Header', dict(base, MaxLen=9, Jobs=qs('none', 'rev'), Titles=alltitles, Firsts=firsts, Middles=middles, Lasts=lasts, Revs=allrevs, Extras=allx, Bodies=bodies), inv, 20 if quick else 600, 11, cap=20000 if quick else None),
    ]


PROPS['C20'] = dict(level='model_checking', jobs=c20, note='Every header of up to four lines of every kind, every combination of name parts, and random longer ones; all that the header states is read back by references in the body and on the page. ' + TRUST)
