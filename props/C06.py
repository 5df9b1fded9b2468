"""C06: generated Medline files are parsed to exactly their records and fields, and written collections are read back identical."""
import io
import re

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.gen import (FIRST, LATIN, MEDLINE_NAMES, PHRASE_LATIN, RC, SURN, MedlineRecord, canon, fixed, ints, lists, one, text, source_lines, tup, weigh)

suite = Suite('C06')

ONE = ['TI', 'AB', 'VI', 'TA', 'JT', 'OTO']
MANY = ['AID', 'OT', 'PT', 'LA', 'SO', 'MH', 'RN', 'IS', 'SB', 'PHST', 'STAT', 'IP', 'CI', 'IR', 'FIR', 'CN', 'LID', 'CRDT', 'ED', 'OAB', 'PL',
        'JID', 'GN', 'EIN', 'CIN', 'PMC', 'MHDA', 'EDAT', 'OWN', 'DCOM', 'LR', 'DA', 'PST', 'SI', 'ISBN', 'RF', 'FED', 'XY', 'QQQQ', 'IRAD', 'DEP', 'NM', 'TT',
        'BTI', 'CTI', 'VTI', 'EN', 'OID', 'FPS', 'PS', 'GS', 'MID', 'OCI', 'UIN', 'CRF']
line = st.one_of(PHRASE_LATIN, text(1, 14, LATIN), one('PMID- 12', 'TI  - x', ' x', 'a : b', 'ER', '- '), st.tuples(text(1, 9, LATIN), one('\x0b', '\x0c', '\x1c', '\x85'), text(1, 9, LATIN)).map(''.join))
value = st.lists(line, min_size=1, max_size=3)
MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()


@st.composite
def med(draw):
    """A record as a list of [tag, lines]; author lines in order, each author's own lines after it."""
    blocks = []
    for t in draw(st.lists(one(*ONE), max_size=4, unique=True)):
        blocks.append([[t, draw(value)]])
    if draw(st.booleans()):
        blocks.append([['VI', [draw(one('12', '49 Suppl 20', '5A', 'Suppl'))]]])
        blocks = [b for i, b in enumerate(blocks) if b[0][0] != 'VI' or i == len(blocks) - 1]
    for t in draw(st.lists(one(*MANY), max_size=5, unique=True)):
        for i in range(draw(ints(1, 3))):
            blocks.append([[t, draw(value) if t != 'AID' else [draw(one('10.1/x [doi]', 'S12(3)4 [pii]', '10.2/y-z [doi]', 'X [pii]'))]]])
    if draw(st.booleans()):
        blocks.append([['DP', [draw(st.one_of(
            st.builds('{}{}'.format, ints(1900, 2020), one('', *[' %s%s' % (m, d) for m in MONTHS for d in ('', ' 3', '-Dec')])),
            one('1998 Dec-1999 Jan', '2000-2001', 'c1999')))]]])
    if draw(st.booleans()):
        blocks.append([['PG', [draw(one('12-5', '100', 'suppl 4-9', 'e12; e13', '1-2, 5', 'L33-44', 'suppl 7'))]]])
    for i in range(draw(ints(0, 2))):
        blocks.append([['GR', [draw(one('R01 GM123/GM/NIGMS NIH HHS/United States', 'HL-1/HL/NHLBI NIH HHS/United States',
                                         '095127/Wellcome Trust/United Kingdom', 'odd string'))]]])
    auths = draw(st.lists(st.tuples(one(*SURN), one('J', 'JA', 'M', 'R', 'XY')), max_size=5, unique=True))
    people = []
    ad = st.lists(st.lists(PHRASE_LATIN.filter(lambda s: ' : ' not in s), min_size=1, max_size=2).map('; '.join), min_size=1, max_size=2)
    if draw(ints(0, 5)) == 0:
        people.append(['AD', draw(ad)])
    for a, b in auths:
        if draw(st.booleans()):
            people.append(['FAU', ['%s, %s.' % (a, b)]])
        people.append(['AU', ['%s %s' % (a, b)]])
        if draw(ints(0, 2)) == 0:
            people.append(['AUID', ['ORCID: 0000-%04d' % draw(ints(0, 9999))]])
        if draw(ints(0, 1)) == 0:
            people.append(['AD', draw(ad)])
    blocks = [blocks[i] for i in draw(st.permutations(range(len(blocks))))]
    cut = draw(ints(0, len(blocks)))  # lines of the authors in one or two places
    cut2 = draw(ints(0, len(people)))
    while 0 < cut2 < len(people) and people[cut2][0] in ('AD', 'AUID'):
        cut2 -= 1
    blocks.insert(cut, people[:cut2])
    blocks.append(people[cut2:])
    return [['PMID', [str(draw(ints(1, 40)))]]] + [f for b in blocks for f in b]


records = st.lists(med(), min_size=1, max_size=5, unique_by=lambda r: r[0][1][0])


def rec_text(rec):
    return ''.join('%-4s- %s\n' % (t, '\n      '.join(ls)) for t, ls in rec)


def file_text(recs, lay):
    s = '\n' * lay['lead'] + ('\n' * (1 + lay['gap'])).join(rec_text(r) for r in recs) + '\n' * lay['tail']
    if lay['nofinal']:
        s = s.rstrip('\n')
    return s.replace('\n', lay['eol'])


layout = fixed(lead=ints(0, 1), gap=ints(0, 2), tail=ints(0, 2), nofinal=one(False, False, True), eol=one('\n', '\n', '\r\n'))


def model(rec):
    """What the lines say: plain tags to their values, AD and AUID to [author or None, value] pairs."""
    m, au = {}, None
    for t, ls in rec:
        v = '\n'.join(ls)
        if t == 'AU':
            au = v
        if t in ('AD', 'AUID'):
            m.setdefault(t, []).append([au, v])
        else:
            m.setdefault(t, []).append(v)
    return m


def check_record(ctx, r, rec, what):
    m = model(rec)
    what = '%s of %s' % (what, r.id)
    ctx.check(type(r) is MedlineRecord and not r.bad and r.error is None, '%s: bad (%s)' % (what, r.error))
    ctx.eq(set(r), set(m), what + ': tags')
    ctx.eq(len(r), len(m), what + ': number of tags')
    for t, vs in m.items():
        if t == 'AD':
            want = {}
            for a, v in vs:
                want.setdefault(a, []).extend(x for x in v.replace('\n', '').split(';') if x != '')
            got = dict(r['AD'])
            for a, w in want.items():
                if a is None:
                    ctx.check(w in got.values(), '%s: affiliation given before the authors: %r lacks %r' % (what, got, w))
                else:
                    ctx.eq(got.get(a), w, '%s: affiliation of %s' % (what, a))
            ctx.eq(len(got), len(want), what + ': authors with affiliation')
        elif t == 'AUID':
            ctx.eq({k: v for k, v in r['AUID'].items()}, {a: v for a, v in vs}, what + ': AUID')
        elif t == 'PMID':
            ctx.eq(r['PMID'], 'PMID:' + vs[0], what + ': PMID')
        elif t == 'GR':
            ctx.eq([g.original for g in r['GR']], vs, what + ': grants')
        elif t in ONE + ['PG', 'DP']:
            ctx.eq(r[t], vs[0], '%s: %s' % (what, t))
        else:
            ctx.eq(r[t], vs, '%s: %s' % (what, t))
        if t not in ('AD', 'AUID'):
            ctx.eq(r.get(t, raw=True), vs, '%s: raw %s' % (what, t))
        n = MEDLINE_NAMES.get(t)
        if n:
            ctx.check(n in r and canon(r[n]) == canon(r[t]) and canon(r.get(n)) == canon(r[t]), lambda: '%s: %s is %r but %s is %r' % (what, n, r.get(n), t, r[t]))
    # the documented special fields
    want = {'id': 'PMID:' + m['PMID'][0]}
    for name, t in [('authorsShort', 'AU'), ('authorsFull', 'FAU'), ('keywords', 'OT')]:
        if t in m:
            want[name] = m[t]
    for name, t in [('title', 'TI'), ('journal', 'JT'), ('j9', 'TA'), ('abstract', 'AB')]:
        if t in m:
            want[name] = m[t][0]
    if 'VI' in m:
        want['volume'] = m['VI'][0].split(' ')[0]
    if 'PG' in m:
        want['beginningPage'] = {'12-5': '12', '100': '100', 'suppl 4-9': '4', 'e12; e13': 'e12', '1-2, 5': '1', 'L33-44': 'L33', 'suppl 7': '7'}[m['PG'][0]]
    if 'DP' in m:
        dp = m['DP'][0]
        want['year'] = int(re.search(r'\d{4}', dp).group())
        if ' ' in dp:
            want['month'] = MONTHS.index(dp[5:8]) + 1
    dois = [a[:-6] for a in m.get('AID', []) if a.endswith(' [doi]')]
    if dois:
        want['DOI'] = dois[0]
    if 'AU' in m:
        first = [v for a, v in m.get('AD', []) if a == m['AU'][0]]
        if first:
            parts = [x for x in first[0].replace('\n', '').split(';') if x != '']
            if parts:
                want['address'] = parts[0]
    for name in ['id', 'authorsShort', 'authorsFull', 'keywords', 'title', 'journal', 'j9', 'abstract', 'volume', 'beginningPage', 'year', 'month', 'DOI', 'address']:
        if name in want:
            ctx.check(name in r, '%s: %s is missing' % (what, name))
            ctx.eq(r[name], want[name], '%s: %s' % (what, name))
        else:
            ctx.check(name not in r and r.get(name, 'none') == 'none', '%s: %s appeared from nowhere: %r' % (what, name, r.get(name)))
    if 'GR' in m:
        ctx.eq([g.original for g in r['grants']], m['GR'], what + ': grants')
    else:
        ctx.check('grants' not in r, what + ': grants appeared')


def check_all(ctx, rc, recs, what):
    ctx.check(not rc.bad and not rc.errors, '%s: collection of good records is bad: %s' % (what, rc.errors))
    by = {'PMID:' + r[0][1][0]: r for r in recs}
    ctx.eq(sorted(r.id for r in rc), sorted(by), what + ': ids')
    for r in rc:
        check_record(ctx, r, by[r.id], what)


@suite.test(fixed(recs=records, lay=layout, name=one('a.medline', 'b.txt', 'c')), quick=1800,
            rule='at least two records and a value with a continuation line or an author with own lines')
def parse_file(case, ctx):
    recs = case['recs']
    p = ctx.write(case['name'], file_text(recs, case['lay']), encoding='latin-1')
    rc = RC(p)
    check_all(ctx, rc, recs, 'file')
    ctx.check(all(r.sourceFile == p for r in rc), 'sourceFile')
    whole = '\n' + file_text(recs, dict(case['lay'], eol='\n', nofinal=False))
    source_lines(ctx, rc, {'PMID:' + r[0][1][0]: whole.count('\n', 0, whole.index('\n' + rec_text(r))) for r in recs})
    for rec in recs:
        r = MedlineRecord(rec_text(rec))
        check_record(ctx, r, rec, 'record from text')
        ctx.check(r in rc, 'record from text is not in the collection')
    ctx.nontrivial(len(recs) > 1 and any(len(ls) > 1 or t in ('AD', 'AUID') for r in recs for t, ls in r))
    ctx.label('AD first', any(t == 'AD' and not any(x[0] == 'AU' for x in r[:i]) for r in recs for i, (t, _) in enumerate(r)))


HOW = ['file', 'dir', 'list', 'union', 'minus', 'copy', 'add', 'chunk', 'pop']


@suite.test(fixed(recs=records, how=one(*HOW), cut=ints(0, 5)), quick=1800, rule='at least two records written')
def write_and_reread(case, ctx):
    recs, cut, how = case['recs'], case['cut'], case['how']
    a, b = recs[:cut], recs[cut:]
    lay = {'lead': 1, 'gap': 0, 'tail': 1, 'nofinal': False, 'eol': '\n'}

    def infile(rs, name):
        return ctx.write(name, file_text(rs, lay), encoding='latin-1')

    def obj(rs):
        return [MedlineRecord(rec_text(r)) for r in rs]

    want = recs
    if how == 'file':
        rc = RC(infile(recs, 'in.txt'))
    elif how == 'dir':
        for rs, n in ((a, 'in/a.txt'), (b, 'in/b.txt'), (recs[:1], 'in/c.txt')):
            if rs:
                infile(rs, n)
        rc = RC(ctx.path('in'))
    elif how == 'list':
        rc = RC(obj(recs))
    elif how == 'union':
        rc = RC(infile(recs[:1], 'in.txt')) | RC(obj(recs[1:]))
    elif how == 'minus':
        rc, want = RC(infile(recs, 'in.txt')) - RC(obj(a)), b
    elif how == 'copy':
        rc = RC(infile(recs, 'in.txt')).copy()
    elif how == 'add':
        rc = RC()
        for x in obj(recs):
            rc.add(x)
    elif how == 'chunk':
        rc = RC(infile(recs, 'in.txt')).chunk(len(recs))[0]
    else:
        rc = RC(infile(recs, 'in.txt'))
        gone = rc.pop().id
        want = [r for r in recs if 'PMID:' + r[0][1][0] != gone]
    if not want:
        return
    check_all(ctx, rc, want, 'built by ' + how)
    out = ctx.path('out.txt')
    rc.writeFile(out)
    back = RC(out)
    check_all(ctx, back, want, 'reread (%s)' % how)
    ctx.check(back == rc, 'reread collection differs')
    for r in back:
        o = rc.getID(r.id)
        for t in o:
            ctx.eq(canon(r[t]), canon(o[t]), 'value of %s of %s' % (t, r.id))
            ctx.eq(list(r.get(t, raw=True)), list(o.get(t, raw=True)), 'raw value of %s of %s' % (t, r.id))
    back.writeFile(ctx.path('out2.txt'))
    check_all(ctx, RC(ctx.path('out2.txt')), want, 'second reread')
    check_all(ctx, rc, want, 'collection after writing')
    ctx.nontrivial(len(want) > 1)
    ctx.label(how)


@suite.test(fixed(recs=st.lists(med(), min_size=1, max_size=3), n=weigh((2, ints(98, 103)), (1, ints(250, 260)), (1, ints(498, 503)), (2, ints(995, 1003))), values=one(0, 0, 40, 130), lines=one(0, 0, 30, 400), lay=layout), quick=48, rule='more than a hundred records')
def many(case, ctx):
    """Long files: the records repeat a few, each with an identifier of its own."""
    recs = []
    for i in range(case['n']):
        r = case['recs'][i % len(case['recs'])]
        recs.append([[r[0][0], [str(100 + i)]]] + r[1:])
        if i == case['n'] // 2:  # a long abstract and many values
            rest = [[t, ls + ['line %d of a long value' % j for j in range(case['lines'])] if t in ('AB', 'TI', 'MH', 'OT') else ls] for t, ls in r[1:]]
            if not any(t in ('AB', 'AD') for t, _ in rest):
                rest.insert(0, ['AB', ['a'] + ['line %d' % j for j in range(case['lines'])]])
            for j in range(case['values']):
                rest += [['MH', ['heading %d' % j]], ['FAU', ['Family%d, Given' % j]], ['AU', ['Family%d G' % j]], ['AD', ['place %d' % j]]]
            recs[-1][1:] = rest
    rc = RC(ctx.write('a.txt', file_text(recs, case['lay']), encoding='latin-1'))
    check_all(ctx, rc, recs, 'long file')
    rc.writeFile(ctx.path('out.txt'))
    back = RC(ctx.path('out.txt'))
    check_all(ctx, back, recs, 'long file reread')
    ctx.check(back == rc, 'reread collection differs')
    ctx.nontrivial(len(recs) > 100)
    ctx.label('many values', case['values'] > 0)
    ctx.label('long value', case['lines'] > 0)


own = st.lists(one('Dept A', 'Dept B : group C', 'x : y : z', ' : ', 'a :b', 'Li X : Q', 'two\nlines', 'one : more\nline : two', 'Dept A; Dept B'), max_size=4)


@suite.test(st.lists(fixed(first=own, auths=st.lists(tup(one('Li X', 'Smith JA', "O'Brien K", 'de Groot S', 'None X'), st.lists(tup(one('AD', 'AD', 'AUID'), own), max_size=2)), min_size=1,
                                                     max_size=3, unique_by=lambda a: a[0])), min_size=1, max_size=2), quick=900, rule='an author with two own lines')
def author_lines(case, ctx):
    """Authors with any number of own lines of both kinds: all of them are kept and written under their author."""
    recs = []
    for n, rec in enumerate(case):
        x = [['PMID', [str(n)]]] + [['AD', v.split('\n')] for v in rec['first']]
        for name, blocks in rec['auths']:
            x.append(['AU', [name]])
            x += [[t, v.split('\n')] for t, vs in blocks for v in vs]
        recs.append(x)

    def by_author(lines):
        res, au = {}, None
        for t, ls in lines:
            if t == 'AU':
                au = ls[0]
            elif t != 'PMID':
                res.setdefault((au, t), []).append('\n'.join(ls))
        return res

    def parse(text):
        out = []
        for line in text.split('\n'):
            if line.startswith('      '):
                out[-1][1].append(line[6:])
            elif line:
                out.append([line[:4].strip(), [line[6:]]])
        return out

    rc = RC([MedlineRecord(rec_text(r)) for r in recs])
    for i in range(2):
        ctx.check(not rc.bad and len(rc) == len(recs), 'read back as %d records, bad %s: %s' % (len(rc), rc.bad, rc.errors))
        for n, rec in enumerate(recs):
            r = rc.getID('PMID:%d' % n)
            for t in ('AD', 'AUID'):
                vals = ['\n'.join(ls) for x, ls in rec if x == t]
                ctx.eq(t in r, bool(vals), '%s in the record' % t)
                if vals:
                    raw = sorted(r.get(t, raw=True))
                    ctx.check(len(raw) == len(vals) and all(any(w.endswith(v) for w in raw) for v in vals), 'raw %s: %s, the lines are %s' % (t, raw, vals))
            ctx.eq(r['AU'], [ls[0] for t, ls in rec if t == 'AU'], 'AU')
            buf = io.StringIO()
            r.writeRecord(buf)
            ctx.eq(by_author(parse(buf.getvalue())), by_author(rec), 'own lines of the authors as written')
        rc.writeFile(ctx.path('out%d.txt' % i))
        rc = RC(ctx.path('out%d.txt' % i))
    ctx.nontrivial(any(len(v) > 1 for r in recs for v in by_author(r).values()))
