"""C15: generated collections of the four sources are written as CSV with generated tag selections, delimiters and splits; every file is read back with the csv module and compared cell by cell with the records."""
import csv
import os

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.env import GENDERS
from mkv.worlds import crowds
from mkv.gen import RC, WOS_NAMES, WOSRecord, any_record, author_full, author_short, build, fixed, ints, one, text, tup, wos_fields, wos_text

suite = Suite('C15')
TAG = {v: k for k, v in WOS_NAMES.items()}  # long to short
DEFAULT_FIRST = ['id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI']
GEN = ['num-Male', 'num-Female', 'num-Unknown']


def short(t):
    return TAG.get(t, t)


def genders(names):
    c = [0, 0, 0]
    for n in set(names):
        given = n.split(', ')[1].split(' ')[0].strip('.').title() if ', ' in n and len(n.split(', ')[1]) > 0 else ''
        c[['Male', 'Female', 'Unknown'].index(GENDERS.get(given, 'Unknown'))] += 1
    return c


def cell(v, delim):
    if v is None:
        return ''
    if isinstance(v, list):
        return delim.join(str(x) for x in v)
    return str(v)


def read(path, o):
    with open(path, encoding='utf-8', newline='') as f:
        return list(csv.reader(f, delimiter=o['delim'], quotechar=o['quote'], strict=True))


def check_columns(ctx, head, rc, o):
    first = DEFAULT_FIRST if o['first'] is None else o['first']
    if o['only']:
        f, n = [short(t) for t in first], [short(t) for t in o['only']]
        cols = [t for t in f if t in n] + [t for t in n if t not in f]
        if o['long']:
            cols = [WOS_NAMES[t] for t in cols]
    else:
        cols = [short(t) for t in first]
        rest = sorted({t for r in rc for t in r} - set(cols))
        k = len(cols)
        got = head[k:k + len(rest)]
        if o['long']:
            cols, rest = [WOS_NAMES[t] for t in cols], sorted(WOS_NAMES[t] for t in rest)
        ctx.eq(sorted(got), rest, 'columns after the first tags')
        cols += got
    ctx.eq(head, cols + ['num-Authors'] * o['num'] + GEN * o['gen'], 'header')
    return cols


def check_rows(ctx, path, rc, records, o, what):
    rows = read(path, o)
    ctx.check(rows, '%s: empty file' % what)
    cols = check_columns(ctx, rows[0], rc, o)
    asked = {short(t): t for t in (DEFAULT_FIRST if o['first'] is None else o['first']) + (o['only'] or [])}
    want = []
    for r in records:
        w = []
        for c in cols:
            v = r.get(c if o['long'] else asked.get(c, c))
            w.append(None if isinstance(v, dict) else cell(v, o['list']))
        if o['num']:
            w.append(str(len(r.get('authorsShort', []))))
        if o['gen']:
            w += [str(x) for x in genders(r.get('authorsFull', []) or [])]
        want.append(w)
    got = [[None if b is None else a for a, b in zip(g, want[0])] for g in rows[1:]] if want else rows[1:]
    for g in rows[1:]:
        ctx.eq(len(g), len(rows[0]), '%s: cells in a row' % what)
    masks = [[i for i, x in enumerate(w) if x is None] for w in want]
    left = [list(g) for g in rows[1:]]
    for w, m in zip(want, masks):
        for g in left:
            if all(a == b or b is None for a, b in zip(g, w)):
                left.remove(g)
                break
        else:
            near = max(left, key=lambda g: sum(a == b for a, b in zip(g, w)), default=None)
            ctx.fail('%s: no row %r; the nearest is %r (columns %r)' % (what, w, near, rows[0]))
    ctx.eq(left, [], '%s: rows of no record' % what)
    return rows


SPLITS = ['PY', 'PY', 'AF', 'AF', 'LA', 'AU', 'DE', 'CR', 'year', 'AF', 'authorsFull', 'LA', 'NR', 'id', 'Year', 'language', 'J9', 'AU', 'DE', 'CR', 'keywords', 'PT']
ALLTAGS = sorted(WOS_NAMES)
names = st.one_of(one(*ALLTAGS), one(*WOS_NAMES.values()), one('id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI', 'year', 'journal', 'j9', 'volume', 'month', 'abstract', 'grants', 'address',
                                                                    'Year', 'Source title', 'PMID', 'MH', 'Subject', 'no such tag', 'authorsShort', 'selfCitation'))
taglist = st.one_of(st.none(), st.none(), st.lists(names, max_size=6, unique_by=short))
options = fixed(only=st.one_of(taglist, st.lists(names, min_size=1, max_size=6, unique_by=short), st.lists(one(*ALLTAGS), min_size=1, max_size=5, unique=True)), first=taglist, num=st.booleans(), gen=st.booleans(), long=one(False, False, False, True), delim=one(',', ',', ';', '\t', '|', '∂'), quote=one('"', '"', "'", '≠', '%'),
                list=one('|', '|', ';', ' and ', '', '"', '«'))


def kwargs(o, kind):
    conv = {'list': list, 'tuple': tuple, 'iter': lambda x: iter(list(x))}[kind]
    kw = dict(numAuthors=o['num'], genderCounts=o['gen'], longNames=o['long'], csvDelimiter=o['delim'], csvQuote=o['quote'], listDelimiter=o['list'])
    if o['only'] is not None:
        kw['onlyTheseTags'] = conv(o['only'])
    if o['first'] is not None:
        kw['firstTags'] = conv(o['first'])
    return kw


@st.composite
def author_wos(draw, lo=0):
    """WOS records of few values, so that splits share files."""
    f = [['UT', ['WOS:%03d' % draw(ints(0, 30))]]]
    for t in draw(st.lists(one('AF', 'PY', 'LA', 'J9', 'AU', 'DE', 'NR', 'TI', 'CR', 'PT', 'AB'), min_size=lo, max_size=8, unique=True)):
        f.append([t, draw({'AF': st.lists(author_full, min_size=1, max_size=4), 'PY': one(['1990'], ['1991']), 'LA': one(['English'], ['French']), 'J9': one(['NATURE'], ['CELL']),
                           'AU': st.lists(author_short, min_size=1, max_size=3), 'DE': one(['a; b'], ['a; a; c'], ['a; ; b'], ['x,y "z"; b']), 'NR': one(['1'], ['2']), 'PT': one(['J'], ['B']),
                           'CR': st.lists(one('LEVY Y, 1975, NATURE', 'LI X, 1980, CELL, V1, P2, DOI 10.1/x', 'LI X, 1980, CELL'), min_size=1, max_size=3),
                           'TI': st.lists(text(1, 12).map(lambda s: s.strip() or 'x'), min_size=1, max_size=2), 'AB': st.lists(text(1, 12).map(lambda s: s.strip() or 'x'), min_size=1, max_size=3)}[t])])
    return f


def records(specs):
    seen, res = set(), []
    for src, f in specs:
        r = build(src, f)
        if r.id not in seen and not r.bad:
            seen.add(r.id)
            res.append(r)
    return res


collection = st.lists(st.one_of(any_record(), tup(st.just('W'), author_wos()), tup(st.just('W'), wos_fields())), min_size=0, max_size=4)
some_wos = st.lists(tup(st.just('W'), author_wos(4)), min_size=2, max_size=5)


def usable(recs, o):
    """Options the documentation allows: long names exist for WOS tags only; no delimiter may be the quote."""
    if o['delim'] == o['quote']:
        return False
    if o['long']:
        tags = {short(t) for t in (o['only'] or ()) or (DEFAULT_FIRST if o['first'] is None else o['first'])}
        if not o['only']:
            tags |= {t for r in recs for t in r}
        return all(isinstance(r, WOSRecord) for r in recs) and tags <= set(WOS_NAMES)
    return True


@suite.test(fixed(recs=collection, o=options, how=one('path', 'path', 'default', 'dir'), kind=one('list', 'tuple', 'iter'), twice=st.booleans()), quick=2200, rule='at least two records with a list value')
def table(case, ctx):
    o, recs = case['o'], records(case['recs'])
    if not usable(recs, o):
        return
    rc = RC(recs, name='csv collection')
    kw = kwargs(o, case['kind'])
    for i in range(2 if case['twice'] else 1):
        p = ctx.path({'path': 'out.csv', 'dir': 'sub.d/out.csv', 'default': 'csv collection.csv'}[case['how']])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if case['how'] == 'default':
            cwd = os.getcwd()
            os.chdir(ctx.dir)
            try:
                rc.writeCSV(**kw)
            finally:
                os.chdir(cwd)
        else:
            rc.writeCSV(p, **kw)
        check_rows(ctx, p, rc, list(rc), o, 'call %d' % (i + 1))
        if case['kind'] != 'iter':
            for k, v in (('onlyTheseTags', o['only']), ('firstTags', o['first'])):
                if v is not None:
                    ctx.eq(list(kw[k]), v, '%s after the call' % k)
        else:
            kw = kwargs(o, case['kind'])
        # a call with other options in between, then the same again
        rc.writeCSV(ctx.path('other.csv'), numAuthors=not o['num'], genderCounts=True)
        check_rows(ctx, ctx.path('other.csv'), rc, list(rc), dict(only=None, first=None, num=not o['num'], gen=True, long=False, delim=',', quote='"', list='|'), 'other call')
    ctx.nontrivial(len(recs) > 1 and any(isinstance(v, list) for r in recs for v in r.values()))
    ctx.label('tags requested', bool(o['only']))
    ctx.label('other sources', any(not isinstance(r, WOSRecord) for r in recs))


suite.larger(table, 240, recs=crowds)


@suite.test(fixed(recs=st.one_of(some_wos, some_wos, some_wos, collection), o=options, tag=one(*SPLITS), how=one('name', 'path'), keep=st.booleans()), quick=1500, rule='at least two files are written')
def split(case, ctx):
    o, recs, tag = case['o'], records(case['recs']), case['tag']
    if not usable(recs, o):
        return
    rc = RC(recs, name='csv collection')
    want = {}
    for r in rc:
        v = r.get(tag)
        if v is None:
            continue
        for x in {str(y)[:200] for y in (v if isinstance(v, list) else [v])}:
            want.setdefault(x.replace(os.sep, '_'), []).append(r)
    d = ctx.path('out')
    os.makedirs(d)
    kw = kwargs(o, 'list')
    if case['how'] == 'path':
        rc.writeCSV(os.path.join(d, 'n.csv'), splitByTag=tag, **kw)
    else:
        cwd = os.getcwd()
        os.chdir(d)
        try:
            rc.writeCSV('n.csv' if case['keep'] else None, splitByTag=tag, **kw)
        finally:
            os.chdir(cwd)
    base = 'n.csv' if case['how'] == 'path' or case['keep'] else 'csv collection.csv'
    ctx.eq(sorted(os.listdir(d)), sorted('%s-%s' % (k, base) for k in want), 'files')
    for k, rs in want.items():
        seen = []
        for r in rs:
            if not any(r is x for x in seen):
                seen.append(r)
        check_rows(ctx, os.path.join(d, '%s-%s' % (k, base)), rc, seen, o, 'file of %r' % k)
    ctx.nontrivial(len(want) > 1)
    ctx.label('no file', not want)
    ctx.label('one record', len(rc) == 1)
    ctx.label('shared file', any(len(x) > 1 for x in want.values()))


suite.larger(split, 240, recs=crowds)
