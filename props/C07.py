"""C07: generated Scopus CSV files are parsed to exactly their rows and cells, and written collections are read back identical."""
import csv

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.gen import RC, ScopusRecord, canon, fixed, ints, one, phrase, scopus_ref, text, tup, weigh, year

suite = Suite('C07')
from metaknowledge.citation import Citation  # noqa: E402

COLS = ['Authors', 'Title', 'Year', 'Source title', 'Volume', 'Issue', 'Art. No.', 'Page start', 'Page end', 'Page count', 'Cited by', 'DOI',
        'Link', 'Affiliations', 'Authors with affiliations', 'Abstract', 'Author Keywords', 'Index Keywords', 'Molecular Sequence Numbers',
        'Chemicals/CAS', 'Tradenames', 'Manufacturers', 'Funding Details', 'Funding Text', 'References', 'Correspondence Address', 'Editors',
        'Sponsors', 'Publisher', 'Conference name', 'Conference date', 'Conference location', 'Conference code', 'ISSN', 'ISBN', 'CODEN',
        'PubMed ID', 'Language of Original Document', 'Abbreviated Source Title', 'Document Type', 'Source', 'EID']
INT = ['Year', 'Page count', 'Cited by', 'Conference code']
SEMI = ['Authors with affiliations', 'Author Keywords', 'Index Keywords', 'Tradenames', 'Manufacturers', 'Correspondence Address', 'ISBN',
        'Language of Original Document']
SPECIALS = {'year': 'Year', 'volume': 'Volume', 'beginningPage': 'Page start', 'j9': 'Abbreviated Source Title', 'citations': 'References',
            'authorsShort': 'Authors', 'authorsFull': 'Authors', 'title': 'Title', 'journal': 'Source title', 'keywords': 'Index Keywords',
            'abstract': 'Abstract', 'id': 'EID'}

# text of a cell as it stands between the quotes: quote characters come doubled
piece = st.one_of(st.sampled_from(['""', ',', '""', ',', ' ', ';', '; ', 'a', 'b', '$', '|', '|', "'", 'é', '漢', '5', '(', ')', '.', '\t']), text(1, 4).map(lambda s: s.replace('"', '""')))
cell_text = st.lists(piece, min_size=1, max_size=8).map(''.join).filter(lambda s: s != '')
name = one('Levy Y.', 'Smith J.', 'Imbert C.-A.', 'Li X.', 'O""Brien K.', 'X')


def cell(col):
    """[text of the cell, what it decodes to]"""
    if col in INT:
        return (year if col == 'Year' else ints(0, 5000)).map(lambda n: [str(n), n])
    if col in SEMI:
        return st.lists(st.one_of(phrase, cell_text.filter(lambda s: '; ' not in s and not s.endswith(';') and not s.startswith(' '))),
                        min_size=1, max_size=4).map(lambda l: ['; '.join(l), l])
    if col == 'Authors':
        return st.lists(name, min_size=1, max_size=5).map(lambda l: [', '.join(l), l])
    if col == 'Sponsors':
        return st.lists(st.one_of(phrase, cell_text.map(lambda s: s.replace(';', ',') or 'x')), min_size=1, max_size=3).map(lambda l: [';'.join(l), l])
    if col == 'References':
        return st.lists(st.one_of(scopus_ref(), phrase), min_size=1, max_size=4).map(lambda l: ['; '.join(l), l])
    if col == 'Funding Details':
        return st.lists(one('NSF, National Science Foundation', 'R01-1, NIH, National Institutes of Health', 'DFG'),
                        min_size=1, max_size=3).map(lambda l: ['; '.join(l), l])
    return st.one_of(cell_text, phrase).map(lambda s: [s, s])


@st.composite
def row(draw):
    """{column: [text, decoded, quoted]}"""
    cols = draw(st.lists(st.sampled_from(COLS[:-1]), max_size=10, unique=True))
    if draw(st.booleans()):
        cols = list(dict.fromkeys(cols + ['Authors', 'Title', 'Year', 'Source title', 'References']))
    res = {}
    for c in cols:
        t, v = draw(cell(c))
        res[c] = [t, v, not (draw(ints(0, 5)) == 0 and not set(t) & set(',"'))]
    t = '2-s2.0-%d' % draw(ints(0, 30))
    res['EID'] = [t, t, draw(st.booleans())]
    return res


rows = st.lists(row(), min_size=1, max_size=5, unique_by=lambda r: r['EID'][0])
layout = fixed(eol=one('\n', '\n', '\r\n'), nofinal=st.booleans(), empty=one('', '', '""'), order=one('std', 'std', 'std', 'rev', 'rot', 'swap'), drop=one(0, 0, 0, 1, 2))


def header(rs, lay):
    cols = list(COLS)
    used = {c for r in rs for c in r}
    unused = [c for c in cols if c not in used]
    for c in unused[:lay['drop']]:
        cols.remove(c)
    if lay['order'] == 'rev':
        cols.reverse()
    elif lay['order'] == 'rot':
        cols = cols[7:] + cols[:7]
    elif lay['order'] == 'swap':
        cols[0], cols[3], cols[-1] = cols[-1], cols[0], cols[3]
    return cols


def row_text(r, cols, empty=''):
    return ','.join(('"%s"' if r[c][2] else '%s') % r[c][0] if c in r else empty for c in cols)


def file_text(rs, lay):
    cols = header(rs, lay)
    s = '\ufeff' + ','.join(cols) + '\n' + '\n'.join(row_text(r, cols, lay['empty']) for r in rs) + ('' if lay['nofinal'] or not rs else '\n')
    return s.replace('\n', lay['eol'])


STD = {'eol': '\n', 'nofinal': False, 'empty': '', 'order': 'std', 'drop': 0}


def check_record(ctx, r, row, what):
    what = '%s of %s' % (what, r.id)
    ctx.check(type(r) is ScopusRecord and not r.bad and r.error is None, '%s: bad (%s)' % (what, r.error))
    ctx.eq(set(r), set(row), what + ': columns')
    ctx.eq(len(r), len(row), what + ': number of columns')
    for c, (t, v, _) in row.items():
        ctx.eq(r.get(c, raw=True), t, '%s: text of %s' % (what, c))
        got = r[c]
        if c == 'References':
            ctx.check(all(isinstance(x, Citation) for x in got), what + ': References are not Citations')
            ctx.eq([str(x) for x in got], v, what + ': References')
        elif c == 'Funding Details':
            ctx.eq([g.original for g in got], v, what + ': grants')
        else:
            ctx.check(type(got) is type(v) and got == v, lambda: '%s: %s is %r, expected %r' % (what, c, got, v))
    for s, c in SPECIALS.items():
        if c in row:
            ctx.check(s in r and canon(r[s]) == canon(r[c]), lambda: '%s: %s is %r but %s is %r' % (what, s, r.get(s), c, r.get(c)))
        else:
            ctx.check(s not in r and r.get(s, 7) == 7, '%s: %s appeared from nowhere' % (what, s))
    ctx.eq(r.id, 'EID:' + row['EID'][0], what + ': id')


def check_all(ctx, rc, rs, what):
    ctx.check(not rc.bad and not rc.errors, '%s: collection of good records is bad: %s' % (what, rc.errors))
    by = {'EID:' + r['EID'][0]: r for r in rs}
    ctx.eq(sorted(r.id for r in rc), sorted(by), what + ': ids')
    for r in rc:
        check_record(ctx, r, by[r.id], what)


@suite.test(fixed(rs=rows, lay=layout, name=one('a.csv', 'b.txt', 'c')), quick=3000, rule='at least two rows and a cell with a comma or a quote character')
def parse_file(case, ctx):
    rs = case['rs']
    p = ctx.write(case['name'], file_text(rs, case['lay']))
    if case['lay']['eol'] == '\n':
        with open(p, encoding='utf-8-sig', newline='\n') as f:  # the files are CSV as the csv module reads it, quotes undone
            tab = list(csv.reader(f))
        assert tab[1:] == [[r[c][0].replace('""', '"') if c in r else '' for c in header(rs, case['lay'])] for r in rs], 'generator'
    rc = RC(p)
    check_all(ctx, rc, rs, 'file')
    for r in rs:
        x = ScopusRecord(row_text(r, COLS) + '\n')
        check_record(ctx, x, r, 'record from text')
        ctx.check(x in rc, 'record from text is not in the collection')
    ctx.nontrivial(len(rs) > 1 and any(set(v[0]) & set(',"') for r in rs for v in r.values()))
    ctx.label('order ' + case['lay']['order'])


HOW = ['file', 'dir', 'list', 'union', 'minus', 'copy', 'add', 'chunk', 'pop']


@suite.test(fixed(rs=st.lists(row(), min_size=1, max_size=3), n=weigh((2, ints(98, 103)), (1, ints(250, 260)), (1, ints(498, 503)), (2, ints(995, 1003))), times=one(1, 1, 40, 400), lay=layout), quick=48, rule='more than a hundred rows')
def many(case, ctx):
    """Long files: the rows repeat a few, each with an identifier of its own."""
    rs = []
    for i in range(case['n']):
        t = '2-s2.0-%d' % (100 + i)
        rs.append(dict(case['rs'][i % len(case['rs'])], EID=[t, t, bool(i % 2)]))
        if i in (1, case['n'] // 2):  # long cells, lists of many values
            k = case['times']
            for c, (t, v, q) in rs[-1].items():
                if c != 'EID' and c not in INT:
                    if isinstance(v, list):
                        sep = ', ' if c == 'Authors' else ';' if c == 'Sponsors' else '; '
                        rs[-1][c] = [sep.join([t] * k), v * k, q or k > 1]
                    else:
                        rs[-1][c] = [t * k, v * k, q or k > 1]
    rc = RC(ctx.write('a.csv', file_text(rs, case['lay'])))
    check_all(ctx, rc, rs, 'long file')
    rc.writeFile(ctx.path('out.csv'))
    back = RC(ctx.path('out.csv'))
    check_all(ctx, back, rs, 'long file reread')
    ctx.check(back == rc, 'reread collection differs')
    ctx.nontrivial(len(rs) > 100)
    ctx.label('long cells', case['times'] > 1)


@suite.test(fixed(rs=rows, how=one(*HOW), cut=ints(0, 5), order=one('std', 'std', 'rev')), quick=3000, rule='at least two records written')
def write_and_reread(case, ctx):
    rs, cut, how = case['rs'], case['cut'], case['how']
    a, b = rs[:cut], rs[cut:]
    lay = dict(STD, order=case['order'])

    def infile(xs, n):
        return ctx.write(n, file_text(xs, lay))

    def obj(xs):
        return [ScopusRecord(row_text(r, COLS) + '\n') for r in xs]

    want = rs
    if how == 'file':
        rc = RC(infile(rs, 'in.csv'))
    elif how == 'dir':
        for xs, n in ((a, 'in/a.csv'), (b, 'in/b.csv'), (rs[:1], 'in/c.csv')):
            infile(xs, n)
        rc = RC(ctx.path('in'))
    elif how == 'list':
        rc = RC(obj(rs))
    elif how == 'union':
        rc = RC(infile(a, 'in.csv')) | RC(obj(b))
    elif how == 'minus':
        rc, want = RC(infile(rs, 'in.csv')) - RC(obj(a)), b
    elif how == 'copy':
        rc = RC(infile(rs, 'in.csv')).copy()
    elif how == 'add':
        rc = RC()
        for x in obj(rs):
            rc.add(x)
    elif how == 'chunk':
        rc = RC(infile(rs, 'in.csv')).chunk(len(rs))[0]
    else:
        rc = RC(infile(rs, 'in.csv'))
        gone = rc.pop().id
        want = [r for r in rs if 'EID:' + r['EID'][0] != gone]
    if not want:
        return
    check_all(ctx, rc, want, 'built by ' + how)
    rc.writeFile(ctx.path('out.csv'))
    back = RC(ctx.path('out.csv'))
    check_all(ctx, back, want, 'reread (%s)' % how)
    ctx.check(back == rc, 'reread collection differs')
    with open(ctx.path('out.csv'), encoding='utf-8-sig', newline='') as f:
        tab = [r for r in csv.reader(f) if r]
    ctx.eq(tab[0], COLS, 'header of the written file')
    ctx.eq(sorted(map(str, tab[1:])), sorted(str([r[c][0].replace('""', '"') if c in r else '' for c in COLS]) for r in want), 'written file read by the csv module')
    back.writeFile(ctx.path('out2.csv'))
    check_all(ctx, RC(ctx.path('out2.csv')), want, 'second reread')
    check_all(ctx, rc, want, 'collection after writing')
    ctx.nontrivial(len(want) > 1)
    ctx.label(how)
