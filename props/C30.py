"""C30: generated grant files of every type, with many layouts, and grant strings are parsed and compared with the rows, elements and parts they were written from."""
import collections
import csv
import io
import itertools
import random

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.env import mk
from mkv.gen import LATIN, fixed, ints, one, weigh
from mkv.grants import CELLTEXT, INSTS, NAMES, nsf_award, nsf_expected, xml_elem
from metaknowledge.grants.scopusGrant import ScopusGrant

suite = Suite('C30')
NSERC_COLS = ['Name-Nom', 'Department-Département', 'Institution-Établissement', 'FiscalYear-Exercice financier', 'AwardAmount', 'ApplicationTitle', 'CoAppName-NomCoApp', 'CoAppInstitution-ÉtablissementCoApp', 'PartInstitution-Établissement', 'Keyword', 'Summary, "short"']
NAMED = ['Name-Nom', 'CoAppName-NomCoApp']
HOUSED = ['Institution-Établissement', 'CoAppInstitution-ÉtablissementCoApp', 'PartInstitution-Établissement']
many = lambda pool: weigh((5, st.lists(one(*pool), min_size=1, max_size=3).map('; '.join)), (1, st.just('')), (1, st.lists(one(*pool), min_size=2, max_size=3).map(' ;'.join)), (1, one(*pool).map(' {} '.format)))
cell = weigh((3, CELLTEXT), (1, one('x', 'y', '12', '')))


def cell_of(col):
    return many(NAMES) if col in NAMED or col in ('PI Names', 'PI', 'Co-PIs') else many(INSTS) if col in HOUSED or col in ('Institution Paid', 'University') else cell


@st.composite
def table(draw, cols, first, lo=2):
    """[columns, rows]; the first column comes from `first` unless it is None."""
    cs = draw(st.lists(one(*cols), min_size=lo, unique=True))
    if first is not None:
        cs.insert(draw(ints(0, len(cs))), first[0])
    rows = draw(weigh((5, st.lists(st.tuples(*[first[1] if first and c == first[0] else cell_of(c) for c in cs]).map(list), min_size=2, max_size=5)), (1, st.tuples(*[first[1] if first and c == first[0] else cell_of(c) for c in cs]).map(lambda r: [list(r)]))))
    return [cs, rows]


layout = fixed(eol=one('\n', '\r\n'), quote=one('minimal', 'all'), final=st.booleans())


def csv_text(tab, lay, head=''):
    f = io.StringIO()
    w = csv.writer(f, lineterminator=lay['eol'], quoting=csv.QUOTE_ALL if lay['quote'] == 'all' else csv.QUOTE_MINIMAL)
    w.writerow(tab[0])
    w.writerows(tab[1])
    t = head.replace('\n', lay['eol']) + f.getvalue()
    return t if lay['final'] else t[:-len(lay['eol'])]


def usable(tab):
    """Rows that differ (a row of blanks is no award)."""
    return all(any(r) for r in tab[1])


def load(ctx, files, encoding, single, ext=''):
    d = ctx.path('grants')
    for name, text in files:
        ctx.write('grants/' + name, text, encoding)
    kw = {'extension': ext} if ext else {}
    col = mk.GrantCollection(ctx.path('grants/' + files[0][0]) if single and len(files) == 1 else d, **kw)
    return col


def check_grant(ctx, g, kind, want, bad):
    ctx.eq(type(g).__name__, kind, 'type of the grant')
    ctx.eq({k: g[k] for k in g.keys()}, want, 'values of the grant %r' % g.id)
    ctx.eq((g.bad, g.error is not None), (bad, bad), 'bad and error of the grant %r' % g.id)


def quiet(ctx, col):
    ctx.eq(dict(col.errors), {}, 'errors of the collection')
    ctx.check(not col.bad, 'the collection is bad')


def pieces(values, sep=';'):
    """Names in the cells; blank ones do not name anybody."""
    return collections.Counter(p.strip() for v in values if v for p in v.split(sep) if p.strip())


def names(l):
    return collections.Counter(x for x in l if x)


@suite.test(fixed(files=st.lists(table(NSERC_COLS, ['Cle', weigh((12, one('100', '101', '102', '7', '0', '007')), (1, st.just('')))]), min_size=1, max_size=3), lay=layout, single=st.booleans()), quick=3000, rule='an award in two rows and an award with an investigator')
def nserc(case, ctx):
    tabs = case['files']
    if not all(map(usable, tabs)):
        return
    without = [dict(zip(cs, r)) for cs, rows in tabs for r in rows]
    without = [r for r in without if not r['Cle']]
    if len({str(list(r.values())) for r in without}) < len(without):
        return  # equal rows without an identifier
    col = load(ctx, [('NSERC_%d.csv' % i, csv_text(t, case['lay'])) for i, t in enumerate(tabs)], 'latin-1', case['single'])
    # per award and file, the rows in order
    awards = {}
    for i, (cs, rows) in enumerate(tabs):
        for n, r in enumerate(rows):
            d = dict(zip(cs, r))
            awards.setdefault(d['Cle'] or 'none %d %d' % (i, n), {}).setdefault(i, []).append(d)
    ctx.eq(len(col), len(awards), 'number of grants')
    left = [a for a in awards if a.startswith('none')]
    twice = False
    for g in col:
        values = {k: g[k] for k in g.keys()}
        ctx.eq(type(g).__name__, 'NSERCGrant', 'type of the grant')
        cle = (g.get('Cle') or '').split('; ')[0]
        if not cle:
            hit = [a for a in left if next(iter(awards[a].values()))[0] == values]
            ctx.check(hit, 'a grant without an identifier has other values than its row: %r' % values)
            left.remove(hit[0])
            ctx.check(g.bad and g.error is not None, 'a grant without an identifier is not bad')
            continue
        ctx.check(not g.bad and g.error is None, 'grant %r is bad: %r' % (g.id, g.error))
        ctx.check(cle in awards, 'no award %r' % cle)
        parts = awards[cle]
        twice = twice or sum(map(len, parts.values())) > 1
        options = []
        for order in itertools.permutations(parts.values()):
            want = {}
            for d in itertools.chain(*order):
                for k, v in d.items():
                    want[k] = '; '.join(x for x in (want.get(k, ''), v) if x)
            options.append(want)
        # fields that are blank in every row may be left out when they are not in the first file
        strip = lambda d: {k: v for k, v in d.items() if v}
        ctx.check(strip(values) in [strip(o) for o in options] and set(values) <= set(options[0]), 'values of award %s are %r, expected %r' % (cle, values, options))
        for what, get, cols in (('investigators', g.getInvestigators, NAMED), ('institutions', g.getInstitutions, HOUSED)):
            ctx.eq(names(get()), pieces([d.get(c) for c in cols for p in parts.values() for d in p]), '%s of award %s' % (what, cle))
    if not without:
        quiet(ctx, col)
    ctx.nontrivial(twice and any(names(g.getInvestigators()) for g in col))
    ctx.label('merged between files', any(len(p) > 1 for p in awards.values()))
    ctx.label('no identifier', bool(without))


def awards(seed, n, files, rows):
    """Files with many awards, some of many rows."""
    r = random.Random(seed)
    cols = ['Cle'] + NSERC_COLS[:3] + NSERC_COLS[5:8]
    some = lambda what, k: '%s %d' % (what, r.randint(0, k)) if r.random() < .8 else ''
    out = []
    for f in range(files):
        mine = [str(100 + i) for i in range(n) if r.random() < .7 for j in range(1 if r.random() < .9 else r.randint(1, rows))] or ['100']
        r.shuffle(mine)
        out.append([cols, [[c, some('Person', 50), some('Department', 9), some('University', 9), some('title', 9), ';'.join(some('Person', 50) for i in range(r.choice([0, 1, 2, 12]))), some('x', 3)] for c in mine]])
    return out


suite.larger(nserc, 60, files=weigh((2, st.builds(awards, ints(0, 10 ** 6), ints(20, 100), ints(1, 3), ints(2, 9))), (1, st.builds(awards, ints(0, 10 ** 6), ints(1, 4), ints(1, 3), ints(20, 120)))))


CIHR_COLS = ['Funding Reference Number', 'Project Title', 'Program Name', 'Institution Paid', 'CIHR Contribution', 'Competition Date', 'Term', 'Keywords', 'Abstract']


@suite.test(fixed(files=st.lists(table(CIHR_COLS, ['PI Names', weigh((7, many(NAMES).filter(bool)), (1, st.just('')))]), min_size=1, max_size=2), lay=layout, query=one('x', 'a, b', '2010'), single=st.booleans(), form=one('list', 'str', 'none')), quick=2200, rule='two grants, one with two investigators')
def cihr(case, ctx):
    tabs = case['files']
    q = io.StringIO()
    csv.writer(q, lineterminator='').writerow([case['query']])
    head = 'Search Criteria,,,,,,,,,\n%s,,,,,,,,,\nDate,,,,,,,,,\n' % q.getvalue()
    col = load(ctx, [('cihr_%d.csv' % i, csv_text(t, case['lay'], head)) for i, t in enumerate(tabs)], 'latin-1', case['single'])
    rows = [dict(zip(cs, r)) for cs, rs in tabs for r in rs]
    check_rows(ctx, col, rows, 'CIHRGrant', lambda r: not r['PI Names'], 'PI Names', 'Institution Paid', case['form'], ';')
    ctx.nontrivial(len(rows) > 1 and any(len(pieces([r['PI Names']])) > 1 for r in rows))
    ctx.label('bad', any(not r['PI Names'] for r in rows))


def check_rows(ctx, col, rows, kind, bad, who, where, form, sep):
    key = lambda d: sorted((k, v) for k, v in d.items())
    doubt = [list(r.values()) for r in rows if bad(r)]
    if any(doubt.count(k) > 1 for k in doubt):
        return  # bad grants with equal values are equal
    got = sorted(([key(dict(g)), g] for g in col), key=lambda p: p[0])
    ctx.eq([k for k, g in got], sorted(map(key, rows)), 'values of the grants')
    ctx.eq(len({g.id for g in col}), len(rows), 'number of distinct ids')
    for k, g in got:
        r = dict(k)
        check_grant(ctx, g, kind, r, bool(bad(r)))
        kw = {} if sep == ';' else {'seperator': sep}
        if form == 'none':
            ctx.eq((g.getInvestigators(), g.getInstitutions()), ([], []), 'names when no fields are given')
            continue
        for get, tag in ((g.getInvestigators, who), (g.getInstitutions, where)):
            tags = tag if form == 'str' else ['no such field', tag]
            ctx.eq(names(get(tags, **kw)), pieces([r.get(tag)], sep), 'names in %r' % tag)
        if form == 'list':
            ctx.eq(names(g.getInvestigators([where, who], **kw)), pieces([r.get(who), r.get(where)], sep), 'names in two fields')
    if not any(map(bad, rows)):
        quiet(ctx, col)


FALL_COLS = ['Number', 'Title', 'PI', 'Co-PIs', 'University', 'Amount', 'Year', 'Notes', 'EID', 'Source', 'PI Names', 'Cle', 'Straße']


@suite.test(fixed(files=st.lists(table(FALL_COLS, None), min_size=1, max_size=2), lay=layout, name=one('x.csv', 'grants 2010.csv', 'a.b.csv'), single=st.booleans(), form=one('list', 'list', 'str', 'none'), sep=weigh((3, st.just(';')), (1, one(',', ' ', ' and ')))), quick=2200, rule='two grants, one with an investigator')
def generic(case, ctx):
    tabs = case['files']
    if not all(map(usable, tabs)):
        return
    col = load(ctx, [('%d%s' % (i, case['name']), csv_text(t, case['lay'])) for i, t in enumerate(tabs)], 'latin-1', case['single'])
    rows = [dict(zip(cs, r)) for cs, rs in tabs for r in rs]
    check_rows(ctx, col, rows, 'FallbackGrant', lambda r: False, 'PI', 'University', case['form'], case['sep'])
    ctx.nontrivial(len(rows) > 1 and any(r.get('PI') for r in rows))
    ctx.label('equal rows', len({str(sorted(r.items())) for r in rows}) < len(rows))


@suite.test(fixed(kind=one('nserc', 'cihr', 'generic'), nserc=table(NSERC_COLS, ['Cle', st.just('')]), cihr=table(CIHR_COLS, ['PI Names', many(NAMES).filter(bool)]), generic=table(FALL_COLS, None), n=weigh((2, ints(98, 103)), (1, ints(250, 260)), (2, ints(995, 1003))), lay=layout, single=st.booleans()), quick=48, rule='more than a hundred grants')
def long_files(case, ctx):
    """Long files: the rows repeat a few, each with an identifier of its own."""
    kind, n = case['kind'], case['n']
    cs, rows = case[kind]
    extra = {'nserc': 'Cle', 'cihr': 'Funding Reference Number', 'generic': 'Number'}[kind]
    if extra not in cs:
        cs, rows = cs + [extra], [r + [''] for r in rows]
    at = cs.index(extra)
    rows = [list(rows[i % len(rows)]) for i in range(n)]
    for i, r in enumerate(rows):
        r[at] = '%d' % (1000 + i)
    head = 'Search Criteria,,,,,,,,,\nx,,,,,,,,,\nDate,,,,,,,,,\n' if kind == 'cihr' else ''
    col = load(ctx, [({'nserc': 'NSERC_1.csv', 'cihr': 'cihr_1.csv', 'generic': 'x.csv'}[kind], csv_text([cs, rows], case['lay'], head))], 'latin-1', case['single'])
    quiet(ctx, col)
    want = {r[at]: dict(zip(cs, r)) for r in rows}
    ctx.eq(len(col), n, 'number of grants')
    for g in col:
        check_grant(ctx, g, {'nserc': 'NSERCGrant', 'cihr': 'CIHRGrant', 'generic': 'FallbackGrant'}[kind], want.pop(g[extra], None), False)
    ctx.nontrivial(n > 100)
    ctx.label(kind)


LAYX = fixed(enc=one('UTF-8', 'utf-8', 'ISO-8859-1', 'UTF-16', ''), flat=st.booleans(), eol=one('\n', '\r\n'), comment=st.booleans(), root=one('rootTag', 'awards'))


@suite.test(fixed(awards=st.lists(st.tuples(nsf_award(), weigh((6, st.just('')), (1, st.just('missing')), (1, st.just('empty')))).map(list), min_size=1, max_size=4, unique_by=lambda a: [v for t, v in a[0] if t == 'AwardID'][0]), lay=LAYX, single=st.booleans()), quick=2200, rule='an award with two investigators and an institution')
def nsf(case, ctx):
    lay, files, want = case['lay'], [], {}
    for i, (award, ident) in enumerate(case['awards']):
        award = [[t, None if t == 'AwardID' and ident == 'empty' else v] for t, v in award if t != 'AwardID' or ident != 'missing']
        body = ''.join(xml_elem(e, flat=lay['flat']) for e in award)
        if lay['comment']:
            body = '<!-- <AwardTitle>no</AwardTitle> -->\n' + body
        enc = lay['enc']
        text = ('<?xml version="1.0" encoding="%s"?>\n' % enc if enc else '') + '<%s>\n<Award>\n%s</Award>\n</%s>\n' % (lay['root'], body, lay['root'])
        files.append(('%d.xml' % i, text.replace('\n', lay['eol']).encode(enc or 'utf-8', 'xmlcharrefreplace')))
        want[str(i)] = (nsf_expected(award), bool(ident))
    col = load(ctx, files, None, case['single'])
    ctx.eq(len(col), len(files), 'number of grants')
    left = dict(want)
    for g in col:
        values = {k: g[k] for k in g.keys()}
        hit = [k for k, (d, b) in left.items() if d == values]
        ctx.check(hit, 'a grant has the values %r of none of the files, which are %r' % (values, [d for d, b in left.values()]))
        d, bad = left.pop(hit[0])
        check_grant(ctx, g, 'NSFGrant', d, bad)
        ctx.eq(names(g.getInvestigators()), names(v.split(';')[0].strip() for v in d.get('Investigator', [])), 'investigators')
        ctx.eq(names(g.getInstitutions()), names(v.split(';')[0].strip() for v in d.get('Institution', [])), 'institutions')
    if not any(b for d, b in want.values()):
        quiet(ctx, col)
    ctx.nontrivial(any(len(d.get('Investigator', [])) > 1 and 'Institution' in d for d, b in want.values()))
    ctx.label('bad', any(b for d, b in want.values()))


word = st.text(LATIN.filter(lambda c: c not in '/'), min_size=3, max_size=9)
part = weigh((3, one('R01', 'U10 HD04267', 'P30 CA016086', '089458', 'NHLBI NIH HHS')), (1, word))


@suite.test(fixed(number=weigh((1, st.none()), (3, st.lists(part, min_size=1, max_size=3))), code=weigh((1, st.none()), (2, one('HL', 'CA', 'hg', '07'))), agency=weigh((4, one('NHLBI NIH HHS', 'Wellcome Trust', '', 'NCI')), (1, word)), country=one('United States', 'United Kingdom', '', 'US'), slash=weigh((9, st.just(True)), (1, st.just(False)))), quick=3000, rule='a number and a code')
def medline(case, ctx):
    number, code = case['number'], case['code']
    if number and len(number) > 1 and code:
        number = number[:1]  # where the number of slashes leaves no doubt
    parts = (number or []) + ([code] if code else []) + [case['agency'], case['country']]
    s = '/'.join(parts)
    if not case['slash']:
        s = s.replace('/', ' ')
    g = mk.MedlineGrant(s)
    ctx.eq(g.original, s, 'original')
    if not case['slash']:
        ctx.check(g.bad and g.error is not None, 'a string without slash is not bad')
        return
    want = {'country': case['country'], 'agency': case['agency']}
    if code:
        want['code'] = code
    if number:
        want['number'] = '/'.join(number)
    # a part that is not there may be blank or missing
    ctx.eq({k: v for k, v in g.items() if v}, {k: v for k, v in want.items() if v}, 'values of the grant %r' % s)
    ctx.check(not g.bad and g.error is None, 'the grant %r is bad' % s)
    ctx.nontrivial(code and number)


@st.composite
def stated(draw):
    """What a grant string states: [number, code, agency, country]."""
    return [draw(one('', '', 'R01', 'HD04267', 'R01/7', '089458')), draw(one('', '', 'HL', 'CA')), draw(one('NCI', 'Wellcome Trust', 'NHLBI NIH HHS', 'MRC')), draw(one('United States', 'United Kingdom', ''))]


@suite.test(fixed(a=stated(), b=stated(), same=st.lists(ints(0, 3), max_size=4, unique=True), source=one('medline', 'medline', 'scopus')), quick=1500, rule='two grants that differ in one part')
def apart(case, ctx):
    """Grants are the same exactly when what identifies them is."""
    a = list(case['a'])
    b = [a[i] if i in case['same'] else x for i, x in enumerate(case['b'])]
    for g in (a, b):
        if g[1] and '/' in g[0]:  # where the number of slashes leaves no doubt
            g[0] = g[0].split('/')[0]
    if case['source'] == 'medline':
        new, text, ident = mk.MedlineGrant, lambda g: '/'.join([x for x in g[:2] if x] + g[2:]), lambda g: (g[0], g[1], g[3]) if g[0] else ('', g[1], g[2], g[3])
    else:
        new, text, ident = ScopusGrant, lambda g: ', '.join([x for x in g[:2] if x][-2:] + g[2:3]), lambda g: text(g)
    x, y = new(text(a)), new(text(b))
    want = ident(a) == ident(b)
    what = 'grants %r and %r' % (text(a), text(b))
    ctx.eq([x == y, y == x, x.id == y.id, hash(x) == hash(y), len({x, y}), len(mk.GrantCollection([x, y]))], [want] * 4 + [1 if want else 2] * 2, what)
    again = new(text(a))
    ctx.check(again == x and hash(again) == hash(x) and again.id == x.id, 'two grants made of %r differ' % text(a))
    ctx.nontrivial(sum(i != j for i, j in zip(a, b)) == 1)
    ctx.label('same', want)


spart = weigh((3, one('51203045', 'NSFC', 'National Natural Science Foundation', 'NIH', '')), (1, st.text(LATIN.filter(lambda c: c != ','), min_size=1, max_size=8)))


@suite.test(fixed(parts=st.lists(spart, min_size=1, max_size=3)), quick=1500, rule='three parts')
def scopus(case, ctx):
    s = ', '.join(case['parts'])
    if s.split(', ') != case['parts']:
        return
    g = ScopusGrant(s)
    ctx.eq(g.original, s, 'original')
    check_grant(ctx, g, 'ScopusGrant', dict(zip(['agency', 'agencyCode', 'code'], reversed(case['parts']))), False)
    ctx.nontrivial(len(case['parts']) == 3)


def repeated(award, k):
    """The award with its repeatable elements k times."""
    return [e for e in award for _ in range(k if e[0] in ('Investigator', 'Institution', 'Organization', 'ProgramElement', 'ProgramReference') else 1)]


suite.larger(nsf, 120, awards=st.tuples(nsf_award(), ints(3, 40)).map(lambda p: [[repeated(*p), '']]))
